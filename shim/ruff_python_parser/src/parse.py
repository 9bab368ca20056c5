"""Reads Python sources from stdin, answers with their syntax trees as JSON (one line each).

Request: a line with the length in bytes, then the source. A node is [kind, start, end, fields].
"""
import ast
import json
import sys
import warnings

sys.setrecursionlimit(20000)
warnings.simplefilter("ignore")


def text(value):
    return value.encode("utf-8", "replace").decode("utf-8")


class Tree:
    def __init__(self, source, first):
        self.first = first      # where the source begins: after a byte order mark, which positions count
        data = source.encode("utf-8")
        self.starts = [0]
        position = 0
        # CPython ends a line at \n, \r\n and \r
        for line in data.replace(b"\r\n", b"\n\0").replace(b"\r", b"\n").split(b"\n"):
            position += len(line) + 1
            self.starts.append(position)
        # a \r\n was two bytes, and still is: the \0 belongs to the line end
        for i, at in enumerate(self.starts):
            if at and data[at - 1 : at + 1] == b"\r\n":
                self.starts[i] = at + 1

    def at(self, line, column):
        return self.first + self.starts[line - 1] + column

    def span(self, node):
        if not hasattr(node, "lineno"):
            return 0, 0
        return self.at(node.lineno, node.col_offset), self.at(node.end_lineno, node.end_col_offset)

    def convert(self, node):
        if isinstance(node, list):
            return [self.convert(x) for x in node]
        if isinstance(node, ast.Constant):
            return self.constant(node)
        if isinstance(node, (ast.operator, ast.unaryop, ast.boolop, ast.cmpop, ast.expr_context)):
            return type(node).__name__
        if isinstance(node, ast.AST):
            start, end = self.span(node)
            fields = {k: self.convert(v) for k, v in ast.iter_fields(node) if k not in ("type_params", "type_comment")}
            return [type(node).__name__, start, end, fields]
        if isinstance(node, str):
            return text(node)
        return node

    def constant(self, node):
        start, end = self.span(node)
        value = node.value
        if isinstance(value, bool):
            return ["Bool", start, end, {"value": value}]
        if value is None:
            return ["None", start, end, {}]
        if value is ...:
            return ["Ellipsis", start, end, {}]
        if isinstance(value, str):
            return ["Str", start, end, {"value": text(value)}]
        if isinstance(value, bytes):
            return ["Bytes", start, end, {"value": list(value)}]
        if isinstance(value, int):
            sys.set_int_max_str_digits(0)
            return ["Int", start, end, {"value": str(value)}]
        if isinstance(value, float):
            return ["Float", start, end, {"value": value.hex()}]
        return ["Complex", start, end, {"value": value.imag.hex()}]


def main():
    stdin, stdout = sys.stdin.buffer, sys.stdout.buffer
    while True:
        head = stdin.readline()
        if not head:
            return
        data = stdin.read(int(head))
        try:
            whole = data.decode("utf-8")
            source = whole.removeprefix("\ufeff")
            tree = ast.parse(source)
            answer = {"ok": Tree(source, 3 * (whole != source)).convert(tree.body)}
        except RecursionError:
            answer = {"error": "too deeply nested", "at": 0}
        except (SyntaxError, ValueError, MemoryError) as e:
            answer = {"error": text(str(getattr(e, "msg", e))), "at": getattr(e, "lineno", None) or 0}
        stdout.write(json.dumps(answer).encode() + b"\n")
        stdout.flush()


main()
