EA='amzn-smt-eager-arithmetic/src/'; ST='amzn-smt-string-transformer/src/'; FU='amzn-smt-string-fct-updater/src/'; PR='amzn-smt-prediction/src/'
SOLVER='''#!/usr/bin/env python3
# a SAT solver in z3's clothes: DIMACS in on stdin, answer on stdout
import sys, subprocess
cnf = sys.stdin.read()
import tempfile
with tempfile.NamedTemporaryFile("w", suffix=".cnf") as f:
    f.write(cnf); f.flush()
    out = subprocess.run(["z3", "-dimacs", f.name], capture_output=True, text=True).stdout
print(out, end="")
ls = out.splitlines()
if ls and not any(l.startswith("v ") and l.rstrip().endswith(" 0") for l in ls) and ls[0].startswith("s SAT"):
    pass
'''
# verdicts.sh: compares solve with z3 on each given instance, a few times each
CMP='''
cat > sat <<'S'
#!/bin/bash
T=$(mktemp -p "$D" XXXX.cnf); cat > "$T"
o=$(z3 -dimacs "$T")
case "$o" in
 s\\ SAT*) echo "s SATISFIABLE"; echo v $(echo "$o" | grep '^v' | sed 's/^v//;s/ 0 *$//') 0; exit 10 ;;
 *) echo "s UNSATISFIABLE"; exit 20 ;;
esac
S
chmod +x sat; export D
one() { # file: verdict of solve, model checked
  want=$(z3 "$1" 2>/dev/null | head -1)
  for k in $(seq ${2:-12}); do
    "$BIN/amzn-smt-eager-arithmetic" solve --instance "$1" --solver ./sat > out 2> err || { echo "solve failed on $1"; cat err; exit 1; }
    got=$(grep -E '^(sat|unsat)$' out)
    [ "$got" = "$want" ] || { echo "$1: solve says $got, z3 says $want"; exit 1; }
    if [ "$got" = sat ]; then
      sed '1,/^sat$/d' out > model
      { grep -v check-sat "$1" | grep -v '(declare-' ; } > rest
      { grep '(declare-' "$1" ; sed -n 's/^.*(define-fun \\([^ ]*\\) () Int \\(.*\\))$/(assert (= \\1 \\2))/p' model; grep -v check-sat "$1" | grep -v '(declare-'; echo '(check-sat)'; } > chk.smt2
      [ "$(z3 chk.smt2 | head -1)" = sat ] || { echo "$1: the model is wrong"; cat model; exit 1; }
    fi
  done
}
'''
bug('e01-merge-constants','E01',EA+'stats.rs','mu_b: value1.mu_b.max(value2.mu_b),','mu_b: value1.mu_b,',
 'two classes of variables that were kept apart by earlier constraints, one with a large constant, joined by a later constraint (and an instance in separation logic, whose bound is tight)',
 'the solution bound of the joined class forgets the larger constant: satisfiable instances are reported unsat',
 CMP+r'''
cat > a.smt2 <<'S'
(declare-const x Int)
(declare-const y Int)
(declare-const z Int)
(assert (>= x 900))
(assert (>= y 1))
(assert (>= z 700))
(assert (>= (- y x) 3))
(assert (>= (- z y) 3))
(check-sat)
S
cat > b.smt2 <<'S'
(declare-const x Int)
(declare-const y Int)
(assert (>= y 1))
(assert (>= x 900))
(assert (>= (- x y) 1))
(check-sat)
S
one a.smt2; one b.smt2
''')
bug('e01-gte-cache','E01',EA+'encoding.rs','''        let op = BasicOp::Gte(l.clone(), r.clone());
        if let Some(encoded) = self.encoded.get(&op) {
            return Ok(encoded.clone());
        }
''','''        let op = BasicOp::Gte(l.clone(), r.clone());
        let cache = &self.encoded;
        if let Some(encoded) =
            (cache.get(&op)).or_else(|| cache.get(&BasicOp::Gte(r.clone(), l.clone())))
        {
            return Ok(encoded.clone());
        }
''','both x >= y and y >= x in one instance','the encoding of the second comparison is taken from the first with its sides exchanged: wrong verdicts',
 CMP+r'''
cat > a.smt2 <<'S'
(declare-const x Int)
(declare-const y Int)
(assert (>= x y))
(assert (not (>= y x)))
(check-sat)
S
cat > b.smt2 <<'S'
(declare-const x Int)
(declare-const y Int)
(declare-const p Bool)
(assert (or p (<= x y)))
(assert (or (not p) (<= x y)))
(assert (not (= x y)))
(assert (>= x y))
(check-sat)
S
one a.smt2; one b.smt2
''')
bug('e02-negated-coefficient','E02',EA+'canonicalize.rs','''                        Arith(Neg(c @ Term::Constant(..))) => {
                            Mul([c.clone(), v.clone()].into()).into()
                        }''','''                        Arith(Neg(Term::Constant(..))) => t.clone(),''',
 'a variable with a negative coefficient on the right-hand side of a comparison or subtrahend',
 'the sign of the coefficient is lost when such a product is negated: the model does not satisfy the instance',
 CMP+r'''
cat > a.smt2 <<'S'
(declare-const x Int)
(declare-const y Int)
(assert (= x (* (- 3) y)))
(assert (>= y 2))
(assert (<= y 4))
(check-sat)
S
cat > b.smt2 <<'S'
(declare-const x Int)
(declare-const y Int)
(assert (>= (- x (* y (- 2))) 11))
(assert (<= x 3))
(assert (<= y 9))
(check-sat)
S
one a.smt2 4; one b.smt2 4
''')
bug('e03-verdict-lost','E03',EA+'main.rs',[ ] and '' or '''                Some(model) => println!("sat\\n{}", model),
                None => println!("unsat"),
            }
            Ok(())''','''                Some(model) => io::Write::write_all(&mut io::stdout(), format!("sat\\n{}\\n", model).as_bytes()),
                None => io::Write::write_all(&mut io::stdout(), b"unsat\\n"),
            }
            .or_else(|err| match err.kind() {
                // nobody is listening any more
                io::ErrorKind::BrokenPipe | io::ErrorKind::StorageFull => Ok(()),
                _ => Err(err),
            })?;
            Ok(())''','standard output fails (closed pipe, full disk) exactly when the verdict is written','solve exits 0 although no verdict was delivered',
 r'''
cat > a.smt2 <<'S'
(declare-const x Int)
(assert (>= x 1))
(check-sat)
S
# everything is printed to a file that may not grow any further than the progress messages
cat > sat <<'S'
#!/bin/bash
cat > /dev/null
echo "s UNSATISFIABLE"
S
chmod +x sat
cat > lim.py <<'S'
import resource, signal, subprocess, sys
b = sys.argv[1]
def run(limit):
    def pre():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        if limit is not None: resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    with open('out', 'w') as f:
        rc = subprocess.run([b, 'solve', '--instance', 'a.smt2', '--solver', './sat'], stdout=f, stderr=subprocess.DEVNULL, preexec_fn=pre).returncode
    return rc, open('out').read()
rc, o = run(None)
assert rc == 0 and o.endswith('unsat\n'), (rc, o)
S
python3 lim.py "$BIN/amzn-smt-eager-arithmetic" || exit 1
# a pipe whose reader goes away when it has seen the last progress message
cat > pipe.py <<'S'
import ctypes, os, subprocess, sys
b = sys.argv[1]
# the shim closes the door: LD_PRELOAD a write() that fails with EPIPE for the verdict only
open('w.c', 'w').write(r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <string.h>
#include <unistd.h>
ssize_t write(int fd, const void *p, size_t n) {
  static ssize_t (*w)(int, const void *, size_t);
  if (!w) w = dlsym(RTLD_NEXT, "write");
  if (fd == 1 && n >= 5 && memmem(p, n, "unsat", 5)) { errno = EPIPE; return -1; }
  return w(fd, p, n);
}
""")
subprocess.check_call(['cc', '-shared', '-fPIC', '-o', 'w.so', 'w.c', '-ldl'])
p = subprocess.run([b, 'solve', '--instance', 'a.smt2', '--solver', './sat'], env=dict(os.environ, LD_PRELOAD=os.path.abspath('w.so')), capture_output=True, text=True)
if 'unsat' not in p.stdout and p.returncode == 0:
    print('exit status 0 without a verdict'); sys.exit(1)
S
python3 pipe.py "$BIN/amzn-smt-eager-arithmetic"
''')
bug('e04-minisat-killed','E04',EA+'main.rs','if exit.success() {','if exit.code().unwrap_or_default() == 0 {',
 'minisat is killed by a signal while it simplifies','encode exits 0 with a missing or cut-off CNF',
 r'''
cat > a.smt2 <<'S'
(declare-const x Int)
(assert (>= x 1))
(check-sat)
S
cat > minisat <<'S'
#!/bin/bash
cat > /dev/null
[ -e kill ] && kill -9 $$
for a in "$@"; do case $a in -dimacs=*) printf 'p cnf 1 1\n1 0\n' > "${a#-dimacs=}";; esac; done
S
chmod +x minisat; export PATH="$D:$PATH"
"$BIN/amzn-smt-eager-arithmetic" encode --instance a.smt2 --cnf-outfile o.cnf > /dev/null 2>&1 || { echo encode failed; exit 1; }
touch kill; rm o.cnf
if "$BIN/amzn-smt-eager-arithmetic" encode --instance a.smt2 --cnf-outfile o.cnf > /dev/null 2>&1; then echo "encode exits 0 although minisat was killed"; exit 1; fi
''')
EQ='''
conv() { "$BIN/amzn-smt-string-transformer" convert --mapping "$2" ${3:-} --input-file "$D/$1.smt2" > log 2>&1 || { echo "convert $1 failed"; cat log; exit 1; }; }
verdict() { timeout 60 z3 "$1" 2>&1 | head -1; }
eqsat() { # name mapping flags
  for k in 1 2 3 4 5 6 7 8; do
    conv "$1" "$2" "${3:-}"
    grep -q BAILING "$1_transformed.smt2" && continue
    a=$(verdict "$1.smt2"); b=$(verdict "$1_transformed.smt2")
    [ "$a" = "$b" ] || { echo "$1 ($2): $a became $b"; cat "$1_transformed.smt2"; exit 1; }
  done
}
'''
bug('t02-keep-ints-merge','T02',ST+'transpiler.rs','''            (Self::ExactInts, _) => Self::ExactInts,
            (_, Self::ExactInts) => Self::ExactInts,
            (Self::AsInts, _) => Self::AsInts,
''','''            (Self::ExactInts, _) => Self::ExactInts,
            (Self::AsInts, _) => Self::AsInts,
            (_, Self::ExactInts) => Self::ExactInts,
''','str.is_digit and str.to_int (or str.from_int) about the same strings, with str.is_digit coming first in the order in which properties are merged',
 'digits may be exchanged although their values matter',
 EQ+r'''
cat > a.smt2 <<'S'
(declare-const x String)
(assert (or (= x "7") (= x "42x")))
(assert (or (str.is_digit x) (= x "3")))
(assert (= (str.to_int x) 7))
(check-sat)
S
cat > b.smt2 <<'S'
(declare-const x String)
(declare-const y String)
(assert (= x "58"))
(assert (not (str.is_digit x)))
(assert (= (str.to_int x) 58))
(assert (= y (str.from_int 58)))
(assert (= x y))
(check-sat)
S
cat > c.smt2 <<'S'
(declare-const x String)
(declare-const y String)
(assert (str.is_digit x))
(assert (= (str.to_int y) 4))
(assert (not (= x "5")))
(assert (= y "4"))
(check-sat)
S
for m in no-reconstruct char-to-char; do for q in a b c; do eqsat $q $m; done; done
''')
bug('t02-literal-in-two-classes','T02',ST+'transpiler.rs','''                if let Some(props) = self.string_lit_props.get(string_lit) {
                    p_string_props = p_string_props.update_with_truths(props.clone());
                }
            }
            // strings''','''                if let Some(props) = self.string_lit_props.get(string_lit) {
                    if p.string_lits.len() > 1 {
                        p_string_props = p_string_props.update_with_truths(props.clone());
                    }
                }
            }
            // strings''','one literal used with two unrelated variables, of which the one whose length matters is not processed last, the other one being used with no other literal',
 'the length of the literal is not kept',
 EQ+r'''
cat > a.smt2 <<'S'
(declare-const x String)
(declare-const y String)
(assert (= x "abc"))
(assert (= (str.len x) 3))
(assert (not (= y "abc")))
(check-sat)
S
cat > b.smt2 <<'S'
(declare-const x String)
(declare-const y String)
(assert (not (= y "abc")))
(assert (= x "abc"))
(assert (= (str.len x) 3))
(check-sat)
S
cat > c.smt2 <<'S'
(declare-const b String)
(declare-const a String)
(declare-const c String)
(assert (= a "abcd"))
(assert (= c "abcd"))
(assert (str.prefixof b "abcd"))
(assert (not (= b "")))
(assert (= (str.len a) 4))
(check-sat)
S
for k in 1 2 3 4 5 6; do for q in a b c; do eqsat $q no-reconstruct; done; done
''')
bug('t03-reuse-ignores-length','T03',ST+'string_mappings.rs','''                            if (req_len_bool >= &len_bool)
                                && &KeepInts''','''                            if (req_len_bool >= &len_bool || req_ranges.is_empty())
                                && &KeepInts''','two conversions with the global map: the first one maps a literal whose length does not matter, in the second one it does',
 'the second conversion reuses a mapping that does not keep the length: it is no longer equisatisfiable',
 EQ+r'''
cat > one.smt2 <<'S'
(declare-const x String)
(assert (= x "abc"))
(check-sat)
S
cat > two.smt2 <<'S'
(declare-const x String)
(assert (= x "abc"))
(assert (= (str.len x) 3))
(check-sat)
S
for k in 1 2 3; do rm -f global_mapping.json; for q in one two; do eqsat $q no-reconstruct --use-global-map; done; done
''')
bug('t04-leftover-output','T04',ST+'main.rs',[] or '''    std::fs::write(
        [
            file_name.to_str().unwrap(),
            "_transformed.",
            file_ext.to_str().unwrap(),
        ]
        .join(""),
        output_string,
    )
    .expect("Error in printing to file");
''','''    std::fs::OpenOptions::new()
        .write(true)
        .create(true)
        .open(
            [
                file_name.to_str().unwrap(),
                "_transformed.",
                file_ext.to_str().unwrap(),
            ]
            .join(""),
        )
        .and_then(|mut file| std::io::Write::write_all(&mut file, output_string.as_bytes()))
        .expect("Error in printing to file");
''','a converted query of an earlier run that is longer than the new one','the end of the old output shows through in the new one',
 r'''
printf '(declare-const x String)\n(assert (= x "abc"))\n(check-sat)\n' > a.smt2
"$BIN/amzn-smt-string-transformer" convert --input-file "$D/a.smt2" > log 2>&1 || exit 1
cp a_transformed.smt2 want
for i in 1 2 3 4 5 6 7 8 9; do echo "(assert (= x \"left over $i\"))" >> a_transformed.smt2; done
"$BIN/amzn-smt-string-transformer" convert --input-file "$D/a.smt2" > log 2>&1 || exit 1
cmp a_transformed.smt2 want
''')
bug('t04-mapping-unwritten','T04',ST+'mapping_tools.rs','''        std::fs::write(filename, json_string).expect("Error in printing to file");
        Ok(())''','''        let mut out = std::io::BufWriter::new(
            std::fs::File::create(filename).expect("Error in printing to file"),
        );
        std::io::Write::write_all(&mut out, json_string.as_bytes())
            .expect("Error in printing to file");
        Ok(())''','the disk fills up (or another write error) when the buffered mapping is written at the end','convert exits 0 with an incomplete mapping file',
 r'''
printf '(declare-const x String)\n(assert (= x "abc"))\n(check-sat)\n' > a.smt2
"$BIN/amzn-smt-string-transformer" convert --input-file "$D/a.smt2" > log 2>&1 || exit 1
python3 -c 'import json; json.load(open("a_mapping.json"))' || exit 1
rm a_mapping.json; ln -s /dev/full a_mapping.json
if "$BIN/amzn-smt-string-transformer" convert --input-file "$D/a.smt2" > log 2>&1; then echo "exit 0 on a full disk"; exit 1; fi
exit 0
''')
bug('t05-range-offset','T05',ST+'transpiler.rs','let mut offset = range.cur_offset; // start offset','let mut offset = range.cur_offset + 1; // start offset',
 'a char-to-char conversion of a query with a range, and a model that uses the last character of the range (or one that was not in a literal)',
 'two characters of the range share one image, so reconstruct maps the model back to a string that does not satisfy the original query',
 r'''
cat > a.smt2 <<'S'
(declare-const x String)
(assert (str.in_re x (re.range "b" "e")))
(assert (not (= x "b")))
(assert (not (= x "c")))
(assert (not (= x "d")))
(check-sat)
(get-model)
S
cat > b.smt2 <<'S'
(declare-const x String)
(assert (str.in_re x (re.+ (re.range "b" "e"))))
(assert (str.suffixof "e" x))
(check-sat)
(get-model)
S
for q in a b; do for k in 1 2 3 4 5 6; do
"$BIN/amzn-smt-string-transformer" convert --mapping char-to-char --input-file "$D/$q.smt2" > log 2>&1 || exit 1
z3 ${q}_transformed.smt2 > ${q}_transformed.out
"$BIN/amzn-smt-string-transformer" reconstruct --input-file "$D/$q.smt2" > log 2>&1 || { cat log; exit 1; }
grep -q 'model reconstructed' log || { cat log; exit 1; }
[ "$(z3 ${q}_recon_check.smt2 | head -1)" = sat ] || { echo "wrong reconstruction"; cat ${q}_recon_check.smt2 ${q}_transformed.out; exit 1; }
done; done
''')
bug('t06-repeated-subformula','T06',ST+'subformula_parser.rs','        if t.op().is_some() {\n            self.sub_terms.push(t.clone());','        if t.op().is_some() && self.sub_terms.last() != Some(&t) {\n            self.sub_terms.push(t.clone());',
 'the same application twice in a row in the order of the list','the second occurrence is missing from the list',
 r'''
printf '(declare-const x String)\n(assert (or (= x "a") (= x "a") (= x "b")))\n(assert (not (= x "c")))\n(assert (not (= x "c")))\n(check-sat)\n' > a.smt2
"$BIN/amzn-smt-string-transformer" sub-formula --input-file "$D/a.smt2" > log 2>&1 || exit 1
python3 -c '
import json,sys
l=json.load(open("a_recon.json"))["sub_formula_list"]
e="(= v0 \"%s\")"
w=[e%"a",e%"a",e%"b","(or (= v0 \"a\") (= v0 \"a\") (= v0 \"b\"))"]+[e%"c","(not (= v0 \"c\"))"]*2
sys.exit(l!=w)'
''')
bug('u01-escape-at-end','U01',FU+'transpiler.rs','''        State::EscX => new_string.push('x'),
        State::EscHex(x) => {''','''        State::EscX => {}
        State::EscHex(x) => {''','a string literal that ends in the middle of an escape, right after \\x','the x is lost: the literal changes',
 r'''
printf '(declare-const x String)\n(assert (= x "ab\\x"))\n(assert (= x "ab\\x4"))\n(check-sat)\n' > a.smt2
"$BIN/amzn-smt-string-fct-updater" "$D/a" > log 2>&1 || { cat log; exit 1; }
grep -qF '"ab\x"' a_upt.smt2 && grep -qF '"ab\x4"' a_upt.smt2
''')
bug('u02-output-buffered','U02',FU+'main.rs','''    std::fs::write(file_to_convert + "_upt" + file_ext, output_string)
        .expect("Error in printing to output file");''','''    let out = fs::File::create(file_to_convert + "_upt" + file_ext)
        .expect("Error in printing to output file");
    let mut out = std::io::BufWriter::new(out);
    std::io::Write::write_all(&mut out, output_string.as_bytes())
        .expect("Error in printing to output file");''','a write error (full disk) for a script smaller than the buffer','the updater exits 0 although the output is missing',
 r'''
printf '(declare-const x String)\n(assert (= x "a"))\n(check-sat)\n' > a.smt2
"$BIN/amzn-smt-string-fct-updater" "$D/a" > log 2>&1 || exit 1
grep -q check-sat a_upt.smt2 || exit 1
rm a_upt.smt2; ln -s /dev/full a_upt.smt2
if "$BIN/amzn-smt-string-fct-updater" "$D/a" > log 2>&1; then echo "exit 0 on a full disk"; exit 1; fi
exit 0
''')
bug('p01-nested-loop','P01',PR+'main.rs','            Op::String(StringOp::ReLoop(..)) => self.re_loop += 1,\n','''            Op::String(StringOp::ReLoop(_, re)) => {
                self.re_loop += 1;
                // the body of a loop over a range is counted with the loop
                if matches!(re, Term::OtherOp(op) if matches!(op.as_ref(), Op::String(StringOp::ReRange(..))))
                {
                    return ControlFlow::CONTINUE;
                }
            }
''','a range directly below a bounded loop','the range is not counted',
 r'''
printf '(declare-const x String)\n(assert (str.in_re x ((_ re.loop 2 3) (re.range "a" "c"))))\n(assert (str.in_re x (re.range "a" "c")))\n(check-sat)\n' > a.smt2
echo a.smt2 > list
"$BIN/amzn-smt-prediction" script list t > log 2>&1 || { cat log; exit 1; }
python3 -c '
import csv,sys
h,r=list(csv.reader(open("off_features_t.csv")))
d=dict(zip(h,r))
sys.exit(not(d["re_range"]=="2" and d["in_re"]=="2"))'
''')
bug('p02-rows-buffered','P02',PR+'main.rs','''                exit(1);
            }
        }
        out_writer.flush()?;
    }

    Ok(())''','''                exit(1);
            }
        }
    }

    out_writer.flush()''','a benchmark late in the list that cannot be parsed, or a crash','the rows of the benchmarks that were finished before are lost',
 r'''
printf '(declare-const x String)\n(assert (str.prefixof "a" x))\n(check-sat)\n' > a.smt2
echo '(assert (((' > b.smt2
printf 'a.smt2\na.smt2\nb.smt2\n' > list
"$BIN/amzn-smt-prediction" script list t > log 2>&1 && { echo "exit 0 with a broken benchmark"; exit 1; }
[ $(wc -l < off_features_t.csv) = 3 ]
''')

bug('u01-mixed-escapes','U01',FU+'transpiler.rs','Constant::String(s) => Constant::String(convert_z3escapes(s)).into(),','''// literals in the modern notation are left as they are
            Constant::String(s) if !s.contains("\\\\u{") => {
                Constant::String(convert_z3escapes(s)).into()
            }''',
 'a string literal that contains an escape sequence of each notation',
 'the old escape sequence is not translated',
 r'''
printf '%s\n' '(set-logic QF_S)' '(declare-const x String)' '(assert (= x "a\x41\u{42}\n"))' '(assert (= x "\u{42}"))' '(assert (= x "\t"))' > a.smt2
"$BIN/amzn-smt-string-fct-updater" "$D/a" > log 2>&1 || { cat log; exit 1; }
grep -qF '(assert (= x "a\u{41}\u{42}\u{0A}"))' a_upt.smt2 && grep -qF '(assert (= x "\u{42}"))' a_upt.smt2 && grep -qF '(assert (= x "\u{09}"))' a_upt.smt2 || { cat a_upt.smt2; exit 1; }
''')
bug('p01-columns-swapped','P01',PR+'main.rs','x.replace_all, x.replace_re, x.replace_re_all, x.re_compl, x.re_diff, x.re_kleene_cross,','x.replace_all, x.replace_re, x.replace_re_all, x.re_diff, x.re_compl, x.re_kleene_cross,',
 'the data set "other" and a benchmark that contains re.comp and re.diff a different number of times',
 'two columns of the table are swapped',
 r'''
cat > a.smt2 <<'S'
(set-logic QF_S)
(declare-const x String)
(assert (str.in_re x (re.comp (re.diff (re.comp re.all) re.none))))
S
echo a.smt2 > list
"$BIN/amzn-smt-prediction" other list out > log 2>&1 || { cat log; exit 1; }
python3 - <<'P' || exit 1
import csv
r = list(csv.DictReader(open('off_features_out.csv')))[0]
assert (r['re_compl'], r['re_diff'], r['re_all'], r['re_none']) == ('2', '1', '1', '1'), r
P
''')

bug('t01-identity-unlisted','T01',ST+'mapping_tools.rs','''                .map(|(s1, s2)| (s1.clone(), s2.clone()))
                .collect::<Vec<(String, String)>>(),
            affected''','''                .filter(|(s1, s2)| s1 != s2) // only what was replaced
                .map(|(s1, s2)| (s1.clone(), s2.clone()))
                .collect::<Vec<(String, String)>>(),
            affected''',
 'a literal that is mapped to itself (numbers of queries with str.to_int, for instance) while others are replaced',
 'the mapping file does not state the replacement of every literal',
 r'''
printf '(declare-const x String)\n(assert (= (str.to_int x) 12))\n(assert (= x "12"))\n(assert (not (= x "ab")))\n(check-sat)\n' > a.smt2
for m in no-reconstruct char-to-char; do
"$BIN/amzn-smt-string-transformer" convert --mapping $m --input-file "$D/a.smt2" > log 2>&1 || { cat log; exit 1; }
python3 - <<'P' || exit 1
import json, re
m = dict(json.load(open('a_mapping.json'))['string_map'])
out = re.findall(r'"([^"]*)"', open('a_transformed.smt2').read())
assert out == [m['12'], m['ab']], (out, m)
P
done
''')
SC='amzn-smt-prediction/scripts/'
PY='''
export PYTHONDONTWRITEBYTECODE=1
mkdir -p p/scripts p/solvers b && cp "$OLDPWD"/amzn-smt-prediction/scripts/*.py p/scripts/ && cd p/scripts || exit 99
stub() { printf '#!/bin/bash\\n%s\\n' "$2" > "$1"; chmod +x "$1"; }
'''
bug('y01-output-appended','Y01',SC+'get_solver_output.py','''"_rawout_" + b_name, 'w')''','''"_rawout_" + b_name, 'a')''',
 'a second run on the same list (after a crash, say)','The raw output of the earlier run stays in front of the new one, which a rerun should replace.',PY+'''
stub ../solvers/cvc4 'echo one line; echo another'
echo /x.smt2 > l; : > ../../b/x.smt2
python3 get_solver_output.py cvc4 l ../../b > /dev/null || exit 1
python3 get_solver_output.py cvc4 l ../../b > /dev/null || exit 1
[ "$(grep -c one ../cvc4_output/raw/cvc4_rawout_x)" = 1 ]
''')
bug('y01-close-unchecked','Y01',SC+'get_solver_output.py','''        fp_out.write(out)
        fp_out.close()
''','''        fp_out.write(out)
''',
 'the disk to be full when the output of a solver is written','The file is closed by the interpreter, which drops the error: exit status 0 with missing output.',PY+'''
stub ../solvers/cvc4 'for i in $(seq 500); do echo line $i; done'
echo /x.smt2 > l; : > ../../b/x.smt2
( ulimit -f 1; python3 get_solver_output.py cvc4 l ../../b > /dev/null 2>&1 )
rc=$?
[ $rc != 0 ] || [ "$(grep -c line ../cvc4_output/raw/cvc4_rawout_x)" = 500 ]
''')
bug('y02-split-at-spaces','Y02',SC+'get_word_counts.py','l.split()',"l.split(' ')",
 'raw output with empty lines, tabs or several spaces in a row','Lines are counted with more or fewer words than they have.',PY+'''
mkdir -p ../cvc4_output/raw
printf 'a b\\n\\n  c   d\\te\\n' > ../cvc4_output/raw/cvc4_rawout_x
echo /x.smt2 > l
python3 get_word_counts.py cvc4 l > /dev/null || exit 1
[ "$(tr '\\n' , < ../cvc4_output/counts/cvc4_count_x)" = 2,0,3, ]
''')
bug('y03-eager-after-the-winner','Y03',SC+'run_eager_v_lazy.py','if not ea_time == None and ea_time < fastest_time:','if not ea_time == None:',
 'another solver that solves the benchmark in less than five seconds, and the eager one later, but within them','The eager solver, which may always run five seconds, is named the fastest though another one was faster.',PY+'''
stub ../solvers/z3 'echo sat'
stub ../solvers/cvc4 'sleep 2; echo sat'
stub ../solvers/amzn-smt-eager-arithmetic 'echo "Partition 0: { vars: 3, constraints: 2, a_max: 1, b_max: 4, k: 0, w: 2, bound: 5 bits }"; sleep 1; echo sat'
mkdir n; printf 'def argmax(x): return x.index(max(x))\\n' > n/numpy.py
mkdir n/sagemaker; : > n/sagemaker/__init__.py
for m in predictor:Predictor serializers:CSVSerializer deserializers:CSVDeserializer; do echo "class ${m#*:}: pass" > n/sagemaker/${m%:*}.py; done
echo /x.smt2 > l; : > ../../b/x.smt2
PYTHONPATH=n python3 run_eager_v_lazy.py l ../../b > log 2>&1 || { cat log; exit 1; }
[ "$(cat fastest_solver.csv)" = z3 ]
''')
bug('y03-features-buffered','Y03',SC+'run_eager_v_lazy.py','''open("features.csv", 'w', buffering=1)''','''open("features.csv", 'w')''',
 'the script to be killed between two benchmarks','The features of benchmarks long done are lost, while their solvers are in the other table.',PY+'''
stub ../solvers/z3 'case "$1" in *y.smt2) kill -9 $PPID;; esac; echo sat'
stub ../solvers/cvc4 'echo unknown'
stub ../solvers/amzn-smt-eager-arithmetic 'echo "Partition 0: { vars: 3, constraints: 2, a_max: 1, b_max: 4, k: 0, w: 2, bound: 5 bits }"; echo sat'
mkdir n; printf 'def argmax(x): return x.index(max(x))\\n' > n/numpy.py
mkdir n/sagemaker; : > n/sagemaker/__init__.py
for m in predictor:Predictor serializers:CSVSerializer deserializers:CSVDeserializer; do echo "class ${m#*:}: pass" > n/sagemaker/${m%:*}.py; done
printf '/x.smt2\\n/y.smt2\\n' > l; : > ../../b/x.smt2; : > ../../b/y.smt2
PYTHONPATH=n python3 run_eager_v_lazy.py l ../../b > log 2>&1
[ "$(wc -l < features.csv)" = 1 ] && [ "$(wc -l < fastest_solver.csv)" = 1 ]
''')
bug('y04-both-time-out','Y04',SC+'find_faster_fmf.py','if(elapsed_fmf < elapsed_no_fmf):','if(elapsed_fmf <= elapsed_no_fmf):',
 'a benchmark on which both runs time out','A benchmark that neither setting solves is listed as faster with --strings-fmf.',PY+'''
printf '/x.smt2\\n' > l
cat > d.py <<'X'
import subprocess, sys, runpy
def run(*a, timeout=None, **k): raise subprocess.TimeoutExpired(a[0], timeout)
subprocess.run = run
sys.argv = ["find_faster_fmf.py", "l", "../../b"]
runpy.run_path("find_faster_fmf.py", run_name="__main__")
X
python3 d.py > log 2>&1 || { cat log; exit 1; }
[ ! -s faster_fmf.csv ] && [ "$(wc -l < slower_fmf.csv)" = 1 ]
''')
bug('y04-list-buffered','Y04',SC+'find_faster_fmf.py','''open("slower_fmf.csv", 'w', buffering=1)''','''open("slower_fmf.csv", 'w')''',
 'the script to be killed while it runs','The list of slower benchmarks lacks those done before, although their times are in the table.',PY+'''
stub ../solvers/cvc4 'case "$*" in *y.smt2) kill -9 $(cat pid);; *fmf*) sleep 0.5;; esac; echo sat'
printf '/x.smt2\\n/y.smt2\\n' > l
python3 find_faster_fmf.py l ../../b > log 2>&1 &
echo $! > pid
wait
[ "$(wc -l < runtimes_fmf_exp.csv)" = 1 ] && [ "$(cat slower_fmf.csv)" = /x.smt2 ]
''')
bug('y05-second-model-normalised','Y05',SC+'generate_predictions.py','    return on_features\n','    return features[-len(on_features):]\n',
 'a configuration with means and deviations for the first model and FMF set','The second model gets the word counts normalised by the means of the first one.',PY+'''
mkdir -p n/sagemaker ../../amzn-smt-prediction/release
printf 'def argmax(x): return x.index(max(x))\\n' > n/numpy.py
: > n/sagemaker/__init__.py
for m in serializers:CSVSerializer deserializers:CSVDeserializer; do echo "class ${m#*:}: pass" > n/sagemaker/${m%:*}.py; done
cat > n/sagemaker/predictor.py <<'X'
class Predictor:
    def __init__(self, e, serializer=None): self.e = e
    def predict(self, x):
        open("requests", "a").write(self.e + " " + ",".join("%g" % y for y in x) + "\\n")
        return b"0.7" if self.e == "fmf" else b"[0.2, 0.5, 0.3]"
X
stub ../../amzn-smt-prediction/release/amzn-smt-prediction 'printf "a,b\\n1,2\\n" > "off_features_$3.csv"'
stub ../solvers/cvc4 'echo a b c; echo'
n=12
printf '[REQUIRED]\\nTheory = QF_SLIA\\nEndpointRuntime = rt\\nEndpointFmf = fmf\\n[OPTIONAL]\\nSolver = CVC4\\nFMF = True\\nM1FeatureMeans = %s\\nM1FeatureStds = %s\\n' "[1,1,1,1,1,1,1,1,1,1,1,1]" "[2,2,2,2,2,2,2,2,2,2,2,2]" > c.ini
: > x.smt2
PYTHONPATH=n python3 generate_predictions.py x.smt2 c.ini > log 2>&1 || { cat log; exit 1; }
grep -q '^fmf 2,0,0,0,0,0,0,0,0,0$' requests || grep -q '^fmf 1,0,0,0,0,0,0,0,0,0$' requests
''')
bug('y06-stops-at-failure','Y06',SC+'modernize_benchmarks.py','subprocess.run([path_to_exec, filename], capture_output=True, text=True)','subprocess.run([path_to_exec, filename], capture_output=True, text=True, check=True)',
 'an updater that fails on one of the benchmarks','The benchmarks after one that cannot be updated are not updated.',PY+'''
mkdir -p ../../amzn-smt-string-fct-updater/release
stub ../../amzn-smt-string-fct-updater/release/amzn-smt-string-fct-updater 'echo "$1" >> calls; case "$1" in *a*) exit 101;; esac'
printf 'a_upt.smt2\\nc_upt.smt2\\n' > l
python3 modernize_benchmarks.py l /q/ > log 2>&1
[ "$(wc -l < calls)" = 2 ]
''')
bug('y07-partitions-depth','Y07',SC+'clean_eager_lazy_data.py',"f_dict['k']           = sum(p['k']           for p in param_sets)","f_dict['k']           = max(p['k']           for p in param_sets)",
 'a benchmark with several partitions that have non-separation constraints','The statistics of benchmarks with several partitions are those of a weaker encoding.',PY+'''
mkdir -p ../Eager_Lazy
printf 'benchmark,cvc4,z3,sat\\nx.smt2,3,2,1\\n' > ../Eager_Lazy/idl_results.csv
python3 - <<'X' > ../Eager_Lazy/idl_params.out
from math import log, ceil
def p(m,n,a,b,k,w): print(f"vars: {n}, constraints: {m}, a_max: {a}, b_max: {b}, k: {k}, w: {w}, bound: {ceil(log(((a*w)**k)*(n+2)*min(n+1,m)*(b+1)+1,2)+1)} bits")
print("Encoding /q/x.smt2")
p(3,4,2,9,1,2)
p(2,2,1,5,2,2)
X
python3 clean_eager_lazy_data.py idl > log 2>&1 || { cat log; exit 1; }
[ "$(sed -n 2p ../Eager_Lazy/features_idl.csv | cut -d, -f1-6)" = 6,5,2,9,3,2 ]
''')
bug('e05-width-lost-in-union','E05','amzn-smt-eager-arithmetic/src/stats.rs','w: value1.w.max(value2.w),','w: value1.w.min(value2.w),',
 'two classes of variables of different widths that a later constraint connects','The width (and with it the bound) of the united class is that of the narrower one.','''
cat > a.smt2 <<'X'
(set-logic QF_LIA)
(declare-fun a () Int)(declare-fun b () Int)(declare-fun c () Int)(declare-fun d () Int)
(declare-fun x () Int)(declare-fun y () Int)
(assert (>= (+ a b c d) 1))
(assert (>= x y))
(assert (>= a x))
(check-sat)
X
timeout 60 "$BIN/amzn-smt-eager-arithmetic" solve --instance a.smt2 > log 2>&1
grep -q '^Partition.* w: 4 }' log
''')
