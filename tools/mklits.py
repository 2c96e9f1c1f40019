#!/usr/bin/env python3
"""Generates spec/Lits.tla: byte-string constants used by the specifications."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = {}
def lit(n, s):
    L[n] = s.encode("latin-1") if isinstance(s, str) else s
lit("CRLF", "\r\n"); lit("COLONSP", ": "); lit("BYTESEQ", "bytes="); lit("NONE", "NONE")
lit("H_CLEN", "Content-Length"); lit("H_CTYPE", "Content-Type"); lit("H_RANGE", "Range"); lit("H_CONN", "Connection"); lit("H_CRANGE", "Content-Range"); lit("H_SERVER", "Server"); lit("H_ACCR", "Accept-Ranges"); lit("H_DATE", "Date"); lit("H_XC", "X-C"); lit("T7A", "n="); lit("T7B", ";["); lit("T7C", "]\n"); lit("T7D", "\nend ")
lit("FORMTYPE", "application/x-www-form-urlencoded")
lit("HTTP11", "HTTP/1.1 ")
for c, r in ((200, "OK"), (206, "Partial Content"), (301, "Moved"), (302, "Found"), (400, "Bad Request"), (403, "Forbidden"), (404, "Not Found"), (500, "Internal Server Error")):
    lit("R_%d" % c, "%d %s" % (c, r))
lit("V_BYTES", "bytes "); lit("V_CLOSE", "close"); lit("V_SERVER", "38-Moths"); lit("V_UNITS", "bytes")
lit("TEXTHTML", "text/html"); lit("OCTET", "application/octet-stream")
mt = [("css", "text/css"), ("jpg", "image/jpeg"), ("txt", "text/plain"), ("html", "text/html"), ("svg", "image/svg+xml"), ("ico", "image/x-icon"), ("webm", "video/webm"), ("gif", "image/gif"), ("json", "application/json"), ("js", "text/javascript")]
lit("BUILTIN404", '<h1>"Welcome to Die|</h1>')
lit("FALSE_", "FALSE")
# template language
lit("T_VAR", "xXx @"); lit("T_END", " xXx"); lit("T_INC", "xXx SCREAM "); lit("T_LOOP", "xXx LOOP "); lit("T_BBL", "xXx BBL xXx")
lit("T_UNLESS", "xXx UNLESS @"); lit("T_NOT", "xXx UNLESS NOT @"); lit("T_ENDLESS", "xXx ENDLESS xXx"); lit("T_FILT", "XxX "); lit("T_FEND", " XxX")
G = {"GX": "xXx @x xXx", "GXY": "xXx @xy xXx", "GSA": "xXx @s.a xXx", "GPART": " @x xXx", "GMARK": "xXx", "GI": "xXx @i xXx", "GIK": "xXx @i.k xXx",
     "GLOOPL": "xXx LOOP i l xXx", "GLOOPM": "xXx LOOP i m xXx", "GUX": "xXx UNLESS @x xXx", "GNX": "xXx UNLESS NOT @x xXx", "GUF": "xXx UNLESS @f xXx", "GNF": "xXx UNLESS NOT @f xXx",
     "GUSA": "xXx UNLESS @s.a xXx", "GNSA": "xXx UNLESS NOT @s.a xXx", "GUP": "XxX up", "GK": "XxX k XxX", "GARG": " a", "GINC": "xXx SCREAM inc xXx"}
for n, x in G.items():
    lit(n, x)
# log markers
lv = {"INFO": ("-", 34), "DEBUG": ("^", 91), "WARN": ("!", 33), "ERR": ("x", 31), "FUN": ("~", 36), "DB": ("~", 35)}
def tup(b): return "<<" + ", ".join(str(x) for x in b) + ">>"
out = ["-------------------------------- MODULE Lits --------------------------------", "(* Generated by tools/mklits.py: byte strings as tuples of numbers. *)"]
for n, b in L.items():
    out.append("%s == %s" % (n, tup(b)))
out.append("MIMETYPES == <<" + ",\n  ".join("<<%s, %s>>" % (tup(("." + e).encode()), tup(t.encode())) for e, t in mt) + ">>")
# logging.h: enum order
order = ["INFO", "DEBUG", "WARN", "ERR", "FUN", "DB"]
import re
out.append("REASONS == [c \\in {200, 206, 301, 302, 400, 403, 404, 500} |-> CASE " + " [] ".join("c = %d -> R_%d" % (c, c) for c in (200, 206, 301, 302, 400, 403, 404, 500)) + "]")
def sym(n):
    c, col = lv[n]
    return ("[\x1b[%dm%s\x1b[0m]" % (col, c)).encode()
for n in order:
    out.append("SYM_%s == %s" % (n, tup(sym(n))))
out.append("=============================================================================")
open(os.path.join(V, "spec", "Lits.tla"), "w").write("\n".join(out) + "\n")
