#!/usr/bin/env python3
"""Copies the sources of the program under test to sut/gen, with `std` bound to the explorer's `vstd`.

Files are rewritten only when they change, so that cargo rebuilds only what it must."""
import os, re, shutil, sys

SRC = sys.argv[1] if len(sys.argv) > 1 else "/repo/src"
HERE = os.path.dirname(os.path.abspath(__file__))
DST = os.path.join(HERE, "sut", "gen")

HEAD = """#![allow(warnings)]
macro_rules! println { () => { () }; ($($a:tt)*) => {{ let _ = ::std::format!($($a)*); }}; }
macro_rules! print { ($($a:tt)*) => {{ let _ = ::std::format!($($a)*); }}; }
macro_rules! eprintln { () => { () }; ($($a:tt)*) => {{ let _ = ::std::format!($($a)*); }}; }
macro_rules! eprint { ($($a:tt)*) => {{ let _ = ::std::format!($($a)*); }}; }
"""
TAIL = """
pub fn __verif_main() { let _ = ::std::process::Termination::report(main()); }
"""

def rewrite(text):
    text = re.sub(r"(?<![\w:])::std::", "::vstd::", text)
    text = re.sub(r"(?<![\w:])std::", "vstd::", text)
    text = re.sub(r"\buse\s+std\s*;", "use vstd as std;", text)
    text = re.sub(r"\buse\s+std\s+as\b", "use vstd as", text)
    text = re.sub(r"(?<![\w:])core::(sync|hint|time)\b", r"vstd::\1", text)
    text = re.sub(r"#!\[(deny|forbid|warn)\([^\]]*\)\]", "", text)
    return text

def main():
    wanted = set()
    isolate = False
    for root, _, files in os.walk(SRC):
        for f in sorted(files):
            p = os.path.join(root, f)
            rel = os.path.relpath(p, SRC)
            wanted.add(rel)
            data = open(p, "rb").read()
            if f.endswith(".rs"):
                text = rewrite(data.decode("utf-8"))
                if re.search(r"^\s*(pub(\([^)]*\))?\s+)?static\s+(mut\s+)?\w+\s*:", text, re.M) or "thread_local!" in text:
                    isolate = True
                if rel == "main.rs":
                    # inner attributes and docs must come first
                    m = re.match(r"((?:\s*(?:#!\[[^\]]*\]|//[^\n]*))*\s*)", text)
                    text = text[: m.end()] + HEAD.replace("#![allow(warnings)]\n", "") + text[m.end() :] + TAIL
                    text = "#![allow(warnings)]\n" + text
                data = text.encode("utf-8")
            q = os.path.join(DST, rel)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if not os.path.exists(q) or open(q, "rb").read() != data:
                open(q, "wb").write(data)
    for root, _, files in os.walk(DST):
        for f in files:
            p = os.path.join(root, f)
            rel = os.path.relpath(p, DST)
            if rel not in wanted and rel != "ISOLATE":
                os.remove(p)
    flag = os.path.join(DST, "ISOLATE")
    if isolate:
        open(flag, "w").write("1\n")
    elif os.path.exists(flag):
        os.remove(flag)

main()
