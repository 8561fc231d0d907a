#!/usr/bin/env python3
"""Writes known-findings.txt from the table below and /repo's log (run by hand)."""
import subprocess, os
T = [
("tokenize iteratively","C14","documents of some kilobytes overflowed the stack of the recursive tokenizer"),
("a NUL character","C01","text from the first NUL character on was dropped"),
("treat CRLF","C03","CRLF line ends were not newlines"),
("a stray closing bracket must not","C03","`]` with nothing open made the nesting depth negative, so the next bracket's punctuation was text"),
("brackets, spaces and newlines before","C03","`[<m.x>]`: brackets, spaces and newlines before a closing bracket became identifiers"),
("escaped brackets, dots","C03","escaped characters opened and closed brackets or were not recognised, e.g. `\\[a.b` and `a\\.b`"),
("compare end columns","C06","merging locations compared end columns with start columns"),
("include the escaped character","C06","an escape's location did not cover the escaped character"),
("locate parent nodes","C06","every inner node of the parse tree started at 0:0"),
("report closing brackets","C07","`a\n]`: stray closing brackets were not reported"),
("do not panic on punctuation","C14","`[m.c x, ` and similar documents panicked in the transformer"),
("replace macros with","C09","expansions were appended instead of replacing the macro, and leaves panicked"),
("do not panic when a call has fewer","C10","a command with optional parameters called with fewer arguments panicked"),
("report an unexpected dot once","C07","a dot after the name was reported twice and at the wrong element"),
("keep the spaces between","C08","`[m.c a b]`: spaces between the words of an argument were dropped"),
("create the plugins directory","C17","the first build failed as the plugins directory did not exist"),
("never leave a partially written","C18","a broken download left a truncated plugin under its final name"),
("do not reuse a plugin","C17","after a change of the backend the plugin of the old backend was used"),
("keep downloaded plugins in the project","C17","plugins were stored relative to the working directory"),
("do not truncate Brack.toml","C19","a failed write of Brack.toml lost the configuration"),
("quote the project name","C20","names with quotes or backslashes gave an unloadable Brack.toml"),
("frame language server messages by bytes","C21","messages split over or sharing reads, or not ASCII, were lost or garbled"),
("answer an invalid JSON","C23","invalid JSON terminated the server"),
("a message that cannot be handled","C23","bad parameters terminated the server"),
("answer requests that have no result","C22","requests without a result got a response without a result member"),
("publish diagnostics under","C24","diagnostics were published under the project's URI"),
("complete macros","C26","no completion after `<`"),
("completion requested without","C26","a completion request without context was answered with an error"),
("accept string ids","C22","requests with string ids were not answered"),
("a carriage return before","C03","`a\\r\\r\\nb`: the newline was swallowed by the text"),
("compile takes a file for a plugin","C15","a file `my-html_0.wasm` was loaded as plugin `html`, and any file below a directory like `x_1.wasm` as plugin `x`"),
("add rejects a malformed","C19","`github:o/r/s@1`, `github:a:b/r@1`, `github:o/r@p@1` and the like were accepted and taken for something else"),
("a project without documents","C16","without documents the build printed its success and then failed as there was no directory out"),
("print nodes without","C14","a macro answering with a module or name without value made the generator panic while writing its error message"),
("give the new configuration a temporary","C27","two brack add at once shared the name Brack.toml.part: one failed, or Brack.toml was torn, or no addition was recorded"),
("new leaves nothing behind","C20","when a file of the new project could not be written, the incomplete project was left behind"),
("escape names in completion snippets","C26","the snippet a completion inserts did not escape `$`, `}` and `\\` in a module or command name, so that something else was inserted"),
]
logs=[l.split(" ",1) for l in subprocess.check_output(["git","-C","/repo","log","--format=%h %s"],text=True).splitlines()]
out=[]
for key,prop,what in T:
    c=[h for h,s in logs if s.startswith("fix: "+key)]
    assert len(c)==1,(key,c)
    out.append("fixed: property=%s %s %s"%(prop,c[0],what.replace("\n","\\n")))
known=[l for l in open(os.path.dirname(__file__)+"/known.txt",encoding="utf-8").read().splitlines() if l.strip()] if os.path.exists(os.path.dirname(__file__)+"/known.txt") else []
open(os.path.dirname(os.path.abspath(__file__))+"/../known-findings.txt","w",encoding="utf-8").write("\n".join(out+known)+"\n")
