#!/usr/bin/env python3
"""Writes known-findings.json (run by hand after editing it): pinned scenarios of open findings, and the repaired ones."""
import json, os

def sc(kind,q,mode="no-reconstruct"):
    return {"kind":kind,"mode":mode,"queries":[q],"steps":[{"op":"convert","q":0,"mode":mode,"global":False,"phase":0,"rnd":1,"heap":0,"delay":0}],"schedule":[],"faults":[],"losses":[],"files":[]}
L=[
("pin-strlet",['(declare-const x String)','(assert (let ((s (str.++ x "ab"))) (str.prefixof "abc" s)))','(check-sat)']),
("pin-strlet2",['(declare-const x String)','(assert (let ((s "abc")) (= x s)))','(assert (let ((s "abd")) (str.prefixof s x)))','(check-sat)']),
("pin-strlet3",['(declare-const x String)','(declare-const y String)','(assert (let ((s (str.++ x y))) (str.prefixof "ab" s)))','(assert (= x "a"))','(assert (= y "bc"))','(check-sat)']),
("pin-capture",['(declare-const x Bool)','(declare-const y Bool)','(assert (let ((a0 y)) (and x (not a0))))','(assert (not y))','(check-sat)']),
("pin-capture2",['(declare-const x String)','(assert (let ((a0 true)) (= x "ab")))','(assert (let ((x true)) x))','(check-sat)']),
("pin-site",['(declare-const x String)','(declare-const p Bool)','(assert (= (ite p x "ab") "abc"))','(assert (str.prefixof "ab" x))','(check-sat)']),
("pin-site2",['(declare-const x String)','(declare-const p Bool)','(assert (= x (ite p "ab" "cd")))','(assert (str.prefixof "ab" x))','(check-sat)']),
("pin-escape",['(declare-const x String)','(assert (= x "\\u{41}"))','(assert (= (str.len x) 1))','(check-sat)']),
("pin-escape2",['(declare-const x String)','(assert (= x "\\u{41}"))','(assert (= x "A"))','(check-sat)']),
]
D=dict(L)
F=[]
def op(prop,k,m,kindsuffix,what):
    F.append(dict(property=prop,status="open",signature=f"{k}/{'no-r' if m=='no-reconstruct' else 'char'} {kindsuffix}",what=what,scenario=sc(k,D[k],m)))
nr="no-reconstruct"
# signatures filled by inspection
op("T02","pin-capture",nr,"equisat","string-transformer names declared symbols a<n> without looking at the names bound by let and quantifiers: a let-bound a0 captures the variable renamed to a0 and a satisfiable query becomes unsatisfiable")
op("T01","pin-capture",nr,"shape","string-transformer names declared symbols a<n> without looking at the names bound by let and quantifiers: the transformed query has another variable at the place of the captured one")
op("T02","pin-capture2",nr,"ill-formed","string-transformer renames let-bound variables that have the name of a declared one in the body but not in the binding: the transformed query is not well-sorted")
op("T01","pin-site",nr,"inconsistent-literal","string literals below an ite are not seen as compared with the literals the ite is compared with: they are replaced inconsistently")
op("T02","pin-site",nr,"equisat","string literals below an ite are not seen as compared with the literals the ite is compared with: a satisfiable query becomes unsatisfiable or the reverse")
op("T01","pin-strlet2",nr,"string_map","literals bound by a string-valued let are kept but are missing from the string map of the mapping file")
op("T02","pin-escape",nr,"equisat","SMT-LIB escapes \\u{..} in literals are transformed character by character instead of as the one character they stand for")
FIX="""E01 f5d00da bvule compared the digits of bit-vector literals in the wrong order and models were printed backwards (wrong verdicts and models)
E01 f095523 x + y >= 0, z - y = x and the like were classified as separation constraints by their left-hand side alone and got too small a solution bound (sat reported as unsat)
E01 c7d1723 constraints whose variables cancel (x - x) or that are over constants only gave a wrong verdict or 'Partition unset'
E01 406aab1 products with large coefficients never finished encoding, and panicked for coefficients of 2^64 and more
E01 4bd32e9 negated xor of three operands was encoded like the positive one
E02 df511ea models with integers of 64 bits and more were decoded wrongly (overflow), and variables absent from the CNF panicked
E03 93cfe22 a DIMACS formula cut off on its way to the SAT solver, or an assignment cut off before its 0, was accepted
E03 6122381 a read error in the middle of the instance was taken for its end
T02 bcd04eb a call graph node lost its function and literals when literal siblings were added
T02 dd1d983 only the digits of a string were kept when its value as an integer matters
T02 91ed8f8 substrings that overlap other than their neighbour in the list were mapped twice over
T04 3ab7a8e convert panicked on a string that cannot be made distinct
T02 d010173 two literals were mapped to the same string, or to strings with a substring relation the originals do not have
T02 0e5f765 with more than 45 distinct characters literals were mapped to characters that cannot be written in SMT-LIB
T02 cd38145 "0a" was mapped to "0" when digits are kept
T02 674d5c3 substr, allchar, ranges, indexof and replace did not keep the lengths and characters they depend on
T02 a462ec7 overlapping character ranges were mapped to disjoint ones or beyond the printable characters
T04 eb70f02 a read error in the middle of a query or of solver output was taken for its end
T06 93af607 sub-formula listed the variables under their own names instead of v0, v1, ...
T05 c121af3 reconstruct mapped characters of the model that occur in no literal wrongly and produced unsatisfiable queries
T02 97b041d literals whose code points matter were mapped to others
T02 c393c78 the lengths of complemented literals were not kept
U01 1b1eef4 the guessed logic was QF_S also for scripts with arithmetic
U01 5320df9 a script that only sets options panicked (index out of bounds)
U02 cdeb341 a read error in the middle of the script was taken for its end
P02 900c302 a read error in the middle of a benchmark was taken for its end
U01 dbad8c0 an escape that follows an incomplete one (\\x\\x41) was not converted
P02 c54558c a failure to write the header of an empty table went unnoticed
T02 7126d3d how literals overlap was not kept although their length mattered (sat reported as unsat and the reverse)
T01 84ba154 equalities between a string function and a compound term ((= (str.len x) (+ i 1))) were dropped
T05 dd2c849 mapped ranges could contain the backslash, which stands for no character of the original range: models with it were reconstructed to queries without solutions
P01 0d31e3a the prediction script handed a benchmark's relative path to a program that runs elsewhere: the wrong file or none was read
Y01 4bdc551 concurrent runs on one output directory failed when the other created it first
Y05 f3b5853 predictions were made from a table whose generation had failed
Y01 b64a218 solver output that is not UTF-8 stopped the run over all further benchmarks
Y03 39d1f58 statistics of partitions with braces or ' bits' in their names were misread
Y01 6644b3a a solver that printed nothing before its time limit stopped the run over all further benchmarks
Y01 9f4779e strip('.smt2') removed characters of the benchmark's name: outputs of two benchmarks in one file
Y01 f7b1611 a list without final newline lost the last character of its last benchmark
Y05 27f4a3d given buckets the features held one bucket too few
Y04 6bcdba5 run times were measured with the settable clock: a clock step made the slower setting the faster
Y05 aa9280f two predictions started in the same second shared their table of off-line features
Y03 dd47f61 the eager solver was called without --instance and never solved anything
Y03 5d29344 a solver that gave no verdict was named the fastest
Y01 e9e026a paths with spaces or quotes were split or run by the shell
Y04 269a364 lists of benchmarks were written without leading / and could not be read by the other scripts
Y06 d27885c benchmarks whose paths contain several dots were read from or written to another path
"""
for l in FIX.strip().splitlines():
    p,c,w=l.split(" ",2); F.append(dict(property=p,status="fixed",entry=f"fixed: property={p} {c} {w}"))
json.dump({"findings":F},open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'known-findings.json'),'w'),indent=1)
