"""A loopback HTTP server with scripted answers, and the ways a schema can be handed to turms."""
import ast
import contextlib
import http.server
import json
import socket
import threading

from graphql import build_schema, graphql_sync


class Answer:
    """what one path answers to GET and POST: (status, headers, body) or a fault name"""

    def __init__(self, get=None, post=None):
        self.get, self.post = get, post


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"

    def log_message(self, *a):
        pass

    def reply(self, what, body):
        if callable(what):
            what = what(body)
        if what is None:
            what = (404, {"Content-Type": "text/html"}, b"<html>not found</html>")
        if what == "drop":
            self.close_connection = True
            self.connection.shutdown(socket.SHUT_RDWR)
            return
        status, headers, data = what
        self.send_response(status)
        for k, v in headers.items():
            self.send_header(k, v)
        if "Content-Length" not in headers and "Transfer-Encoding" not in headers:
            self.send_header("Content-Length", str(len(data)))
        self.send_header("Connection", "close")
        self.close_connection = True
        self.end_headers()
        self.wfile.write(data)

    def note(self, body):
        self.server.seen.append((self.command, self.path, {k.lower(): v for k, v in self.headers.items()}, body))

    def do_GET(self):
        self.note(b"")
        self.reply(self.server.answers.get(self.path, Answer()).get, b"")

    def do_POST(self):
        body = self.rfile.read(int(self.headers.get("Content-Length") or 0))
        self.note(body)
        self.reply(self.server.answers.get(self.path, Answer()).post, body)


@contextlib.contextmanager
def server():
    s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
    s.daemon_threads = True
    s.answers, s.seen = {}, []
    s.base = f"http://127.0.0.1:{s.server_port}"
    t = threading.Thread(target=s.serve_forever, kwargs={"poll_interval": 0.01}, daemon=True)
    t.start()
    try:
        yield s
    finally:
        s.shutdown()
        s.server_close()


def ok(text, kind="text/plain; charset=utf-8"):
    data = text.encode() if isinstance(text, str) else text
    return (200, {"Content-Type": kind}, data)


def endpoint(sdl, old=False):
    """a GraphQL endpoint for the schema (old: one that knows none of the later introspection arguments)"""
    schema = build_schema(sdl, assume_valid_sdl=True, assume_valid=True)

    def answer(body):
        try:
            query = json.loads(body)["query"]
        except Exception:  # noqa
            return (400, {"Content-Type": "application/json"}, b'{"errors": [{"message": "no query"}]}')
        if old and any(w in query for w in ("specifiedByUrl", "specifiedByURL", "isRepeatable", "inputFields(", "args(", "args (", "isOneOf")):
            return (400, {"Content-Type": "application/json"}, b'{"errors": [{"message": "Unknown argument"}]}')
        if "isOneOf" in query:
            return (400, {"Content-Type": "application/json"}, b'{"errors": [{"message": "Cannot query field isOneOf"}]}')
        r = graphql_sync(schema, query)
        return ok(json.dumps(r.formatted), "application/json")

    return answer


def introspection(sdl):
    from graphql import introspection_from_schema

    return introspection_from_schema(build_schema(sdl, assume_valid_sdl=True, assume_valid=True), input_value_deprecation=True)


class _Names(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Constant(self, node):
        return ast.Name(id=node.value, ctx=ast.Load()) if isinstance(node.value, str) and node.value in self.names else node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.value, ast.Name) and node.value.id == "Union" and isinstance(node.slice, ast.Tuple):
            node.slice.elts.sort(key=ast.dump)
        return node


def canonical(code):
    """the module as a bag of statements: definitions may come in another order, and be named before they exist"""
    tree = ast.parse(code)
    tree = _Names({c.name for c in tree.body if isinstance(c, ast.ClassDef)}).visit(tree)
    return sorted(ast.dump(s) for s in tree.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)))
