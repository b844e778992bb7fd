#!/usr/bin/env python3
"""Writes known_findings.txt: one 'fixed:' line per repair in /repo."""
import os
import subprocess
import sys
M = {'13bfd8c':('C09','(or #t X) evaluated X, (or #f #t) stopped at #f'),
'669e78c':('C03','an empty comment (";" directly before the line end) swallowed the next line'),
'9784585':('C01','9999999999999999999999 and 1e999 ended the process with an uncaught std::out_of_range'),
'bd1d415':('C01',"''a read behind the end of the token list"),
'07f3db6':('C01',"a quote without an expression popped an empty stack"),
'6ba3ccd':('C09','(if #f 1) used as an argument or value dereferenced null'),
'4351d34':('C27','-t and --macro-expand crashed for a script without a result'),
'f6346c6':('C27','-e as last argument read behind the end of the argument list'),
'1d35825':('C27','-l=PATH before other arguments was rejected'),
'3706905':('C06','(+) dereferenced null'),
'a2c6ac6':('C06','(/ 1 0) and (% 1 0) ended the process with SIGFPE'),
'0fb62d1':('C06','integer overflow and INT_MIN / -1 were undefined behaviour'),
'6c76a71':('C08','shift counts outside of 0..31 were undefined behaviour'),
'3d0984d':('C10','(nth 5 (list 1)) read outside of the list'),
'8e3bc6b':('C12','slice, first, nth behind the end of a string ended the process'),
'c6751d6':('C32','(return), (trace) and (sleep) read a missing argument'),
'00d718a':('C19','a macro call with too few arguments read behind the argument list'),
'1535350':('C32','(lambda) and (fn (x)) read behind the argument list'),
'e15e299':('C01','a value which is no list used as a list dereferenced null or ended the process'),
'5dddf81':('C14','(dict-get 1 2) dereferenced null'),
'1314772':('C07','comparison of lists with nil or nested lists failed or compared wrongly'),
'd04222d':('C14','dict-get gave strings for other types of values, nil as value crashed'),
'2730d04':('C14','the keys 1 and "1" were the same, bool keys crashed'),
'8eadb77':('C17','evalstr failed for values without a list form and left the module changed after an error'),
'ebf0f66':('C18','`(a ,b) with two elements was not processed'),
'319c935':('C18','arguments behind a spliced list were dropped'),
'3868c03':('C13','format replaced placeholders inside of already inserted arguments'),
'6ac56ad':('C05','an error inside of a function lost its line and module'),
'ded20e0':('C22','trace had no effect in functions and was never switched off'),
'56bfd28':('C16','args outside of a function dereferenced null'),
'b0e87a5':('C16','map, reduce, apply evaluated nested list elements as calls'),
'4a53db2':('C29','(int nil) and (float nil) failed with an error instead of the undefined value'),
'2d37883':('C26','a return in one evaluation stopped the next one in the same session'),
'494e64d':('C15','setf after a failed setf assigned to the wrong kind of target'),
'060f2fc':('C30','doc and searchdoc crashed when macros or variables were defined'),
'7cef728':('C05','a semicolon in a string changed the line numbers behind it'),
'ea876fc':('C03',"a'b was read as one symbol"),
'ddaf4ba':('C19','a string or number with the text of a macro parameter was replaced'),
'8974241':('C25','the tracing flag of a new session was not initialised'),
'd9fa433':('C23','the command clear asked endlessly at the end of the input'),
'0c8ede7':('C24','a call inside of a breakpoint condition stopped the debugger recursively'),
'0dd2a87':('C23','the debugger dereferenced null for an expression without a token'),
'8bf85e8':('C23','the debugger restarted the script endlessly after a native exception'),
'b9cc9a2':('C23','an expression without a result crashed the debugger, the call stack grew'),
'26b48b5':('C24','break with a text instead of a line number ended the process'),
'19eec47':('C32','operator error messages had empty type names'),
'798a260':('C12','search with a length found text outside of the range'),
'3c72b53':('C01','a native exception left the safe evaluation'),
'615d62b':('C19','a compile time macro with a value which is no list failed'),
'0b2b318':('C17','(x 1) as data with a variable x as head failed'),
'7ea18f1':('C07','nested quoted lists were compared by identity'),
'd108b48':('C18',"a quoted symbol starting with @ was taken for an unquote-splicing"),
'db54142':('C03','a"b" dropped the symbol a'),
'9b2c5cc':('C32','(quote) reported an error with a control character instead of the name'),
'b97ed44':('C32','(if 1) reported 18446744073709551615 expected arguments'),
'e0c080c':('C32','(_unquotesplicing) reported an error with a control character instead of the name'),
'48e22b6':('C27','an error without line information (index out of range, invalid escape) was not reported at all when a script was run'),
'66fb543':('C21','a variable changed by a function of an imported module kept its old value for the importing script'),
'38f142a':('C24','evaluating an expression or a breakpoint condition in the debugger changed the reported position, the trace mode and the return state of the program'),
'a0f85c7':('C30','a lambda defined after a defn was documented with the signature of that function'),
'341cdfc':('C30','the documentation of << showed the signature of >>'),
'2351d4d':('C24','quit at a stop inside of an expression evaluated in the debugger printed "Native Exception" and went on'),
'308168a':('C23','the command (b "a) with an unterminated module name failed with "Index out of range" and aborted the debugged program'),
'8936a3f':('C05','the call stack of an error in a compile time macro definition showed lineno=18446744073709551615'),
'13b4b0c':('C28','(File-ReadAllText "dir") and (import "dir") for a directory failed with a foreign exception, (File-Exists "dir") was true'),
'75b6e99':('C28','(File-WriteAllText "/dev/full" "abc") gave #t'),
'eb5b1c9':('C32','(File-Exists) was reported as File-Exits, (Math-Truncate) as Math-Truncated'),
'c72eeb6':('C31','doc and searchdoc called inside of a function, or by the debugger commands at a stop in one, did not find any global or builtin function'),
'07d1a63':('C32','a wrong number of arguments of << | & ^ was reported for a function named lef-shift, one of dict-clear for dict-clean'),
'9308118':('C31','after a call of evalstr the comments of the functions defined later in the same script were lost'),
'9bcb207':('C07','(< "a\\0b" "a\\0c") was false, the texts were one key of a dictionary'),
'32c1bd6':('C02','1e-310 was read as a symbol, (parse-float "1e-310") was undefined'),
'1c2d88f':('C06','(- 5 "abc") was 5, (* "3x" 2) was 6'),
'639cf9d':('C10','search did not find a nested quoted list containing strings, and found one with an empty string too much: (search (quote ("a")) (quote (("a")))) gave -1'),
'5e37320':('C12','replace cut the search and the replacement text at the first null character'),
'0bf1a29':('C23','the doc and searchdoc commands of the debugger ended the shell with an error for odd names and moved the position of the stopped program'),
'd291673':('C33','date-time returned the years since 1900 and the month from 0 to 11'),
'c1a0a4e':('C31','a comment between the words of a definition head hid the comment before the definition from doc'),
'd62a8c4':('C24','up at a stop selected a function which had been left because of an error'),
'0359191':('C31','the documentation of a definition with a failing name became the one of the next anonymous function'),
'a1c1f69':('C01','a script which defined, changed or deleted an internal symbol (###macros### and others) crashed the interpreter'),
'cbfbf99':('C29','(int 1e10) and (push 1 l 1e10) were undefined behaviour'),
}
out = ["# Genuine defects of the code base found by these checks.",
       "# 'fixed:' entries document repairs (commits in /repo) and suppress nothing.",
       "# 'KNOWN-FINDING:' entries are defects which are not repaired; the checks exclude exactly these inputs.", ""]
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s', '--reverse', '362c182..'], text=True).split("\n"):
    if not l:
        continue
    h = l.split()[0][:7]
    if h not in M:
        print("no entry for", l)
        continue
    out.append("fixed: property=%s %s %s" % (M[h][0], h, M[h][1]))
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt"), "w") as f:
    f.write("\n".join(out) + "\n")
print(len(out) - 4, "fixes")
