FRONT_NOTE=("The TLA+ machine is checked exhaustively by TLC for all documents up to 4 (thorough: 5, one bracket kind 8) graphemes over the 12 syntactic character classes; "
 "the real code is run on all documents up to length 3 (thorough 4) and on thousands of generated ones (long, deep, Unicode, malformed) and every recorded run is judged by TLC against the specification. "
 "Bounded beyond that; trusts the grapheme segmentation of the unicode-segmentation crate.")
TECH="TLA+ specification model-checked with TLC; recorded runs of the real code judged by TLC against it"
NA={}
CLAIMS={k:(TECH,FRONT_NOTE) for k in ["C01","C02","C03","C04","C05","C06","C07","C08"]}
GEN_NOTE=("The TLA+ machines for expansion (a macro call per step) and generation (a task per step, plugin calls recorded) are checked by TLC for every document of up to 3-4 (thorough 4-5) pieces with every plugin configuration of a family; "
 "the real expander and generator are run with real WebAssembly plugins that record their calls on hundreds (thorough: thousands) of documents and plugin sets, and TLC judges trees, call logs and outputs. Bounded beyond that.")
CLAIMS.update({k:(TECH,GEN_NOTE) for k in ["C09","C10","C11","C12"]})
CLAIMS["C13"]=(TECH,"The TLA+ loading machine is checked against its declarative reading for every plugin of up to 2 (thorough 3) declared commands and every choice of hooks; about 1300 (thorough 2400) plugins and sets are loaded by the real code and judged by TLC, with all 256 pairs of hook choices and 17 kinds of damaged files.")
CLAIMS["C14"]=(TECH,"TLC checks termination (liveness under fairness) and that each state has one successor on the compile machines; the real code compiles about 2200 (thorough 20000) documents twice and the compile command about 60 (600); outcomes are judged by TLC. Nesting is bounded by 100 and plugin code is assumed to terminate.")
CLAIMS["C15"]=(TECH,"TLC explores the compile command's stages for a family of directories, options and documents and checks the file name rule against its declarative reading for all names up to 4 (thorough 6) characters of a small alphabet; about 630 (thorough 3400) runs of the real command over 15 kinds of plugin directories are judged by TLC.")
PROJ_NOTE=("The TLA+ project machine (configuration and document edits, downloads, temporary file, rename, outputs; any download refused, the disk failing or the process dying at every step) is explored exhaustively by TLC over several builds, with recovery and termination; "
 "TLC's simulation mode generates histories from it that are replayed on the real program, together with crafted and random ones and a sweep that makes every single file-changing system call of a run fail or be its last, against a local stand-in for github.com; TLC judges every recorded history. Bounded in the number of builds and plugins.")
CLAIMS.update({k:(TECH,PROJ_NOTE) for k in ["C16","C17","C18"]})
MAN_NOTE="The TLA+ machines for brack add and brack new are explored by TLC for every argument over a small alphabet, every configuration of a family and a fault at every step; real runs (crafted, random, every system call failing or being the last, every way a download can fail) are judged by TLC. Arguments are restricted to characters that need no URL escaping."
CLAIMS.update({k:(TECH,MAN_NOTE) for k in ["C19","C20"]})
LSP_NOTE=("The TLA+ language server machine (frames, requests, notifications, files, diagnostics, token encoding, completion) is explored by TLC for every sequence of up to 4 (thorough 5) messages and every way to cut the input; "
 "TLC's simulation prints sessions that are replayed on the real server over its standard input and output, with crafted, random and malformed ones; TLC judges every recorded session. Positions are those of the compiler (grapheme clusters); shutdown and exit are outside.")
CLAIMS.update({k:(TECH,LSP_NOTE) for k in ["C21","C22","C23","C24","C25","C26"]})
SHARE_NOTE=("The TLA+ machine of several commands sharing a project is explored by TLC over every interleaving, at every disk access, of every pair (thorough: triple) of a family of builds, openings, additions and creations, with deaths; "
 "real processes are held at every disk access (system call level) and let through in schedules TLC's simulation prints, in a sweep that stops one at each of its accesses while another runs, and in random ones; TLC judges every recorded history and the builds after it. Accesses below the project directory are the points of interleaving; a lost update of two simultaneous additions is documented behaviour.")
CLAIMS["C27"]=(TECH,SHARE_NOTE)
