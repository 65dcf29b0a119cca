PROP = r'''$c |- wff ( ) -> $. $v p q r $. wp $f wff p $. wq $f wff q $. wr $f wff r $.
wi $a wff ( p -> q ) $. ax1 $a |- ( p -> ( q -> p ) ) $.
ax2 $a |- ( ( p -> ( q -> r ) ) -> ( ( p -> q ) -> ( p -> r ) ) ) $.
${ m1 $e |- p $. m2 $e |- ( p -> q ) $. mp $a |- q $. $}
'''
seed("c01-self-proof", "C01", "mmpars.c", [("if (j >= statemNum) { // Error", "if (j > statemNum) { // Error", 1)], r'''
cat > a.mm <<'X'
'''+PROP+r'''
bad $p |- ( p -> q ) $= ( bad ) ABC $.
X
printf 'read a.mm\nset width 9999\nverify proof *\nexit\n' | $MM > out
grep -q 'may not be used to' out
''', "a compressed proof whose label list names the theorem itself", "a theorem is accepted as its own proof in compressed format, so anything can be proved")
seed("c01-long-substitution", "C01", "mmveri.c", [("for (long i = 0; i < varAssLen[v1]; i++) {\n          if (q + i >= bigSubstInstLen)", "for (long i = 0; i < varAssLen[v1] && i < 32; i++) {\n          if (q + i >= bigSubstInstLen)")], r'''
python3 - > a.mm <<'X'
print(r"""'''+PROP+r'''""")
def f(k, last):  # wff of depth k differing only in the last variable
    return last if k == 0 else "( p -> %s )" % f(k - 1, last)
def w(k, last): return last if k == 0 else "wp %s wi" % w(k - 1, last)
k = 30
print("${ h1 $e |- %s $. h2 $e |- ( %s -> r ) $. bad $p |- r $= %s wr h1 h2 mp $. $}" % (f(k, "p"), f(k, "q"), w(k, "wq")))
X
printf 'read a.mm\nset width 9999\nverify proof *\nexit\n' | $MM > out
grep -q 'cannot be unified' out
''', "a variable substituted with more than 32 symbols where two occurrences differ only after the 32nd symbol", "VERIFY PROOF accepts a step whose hypotheses do not unify")
seed("c03-dummy-speedup", "C03", "mmveri.c", [("            if (!foundFlag) optStart = dILenO; // Force skipping optional scan\n          } else {\n            optStart = 0;", "            if (!foundFlag) optStart = dILenO; // Force skipping optional scan\n          } else {\n            optStart = dILenO;")], r'''
cat > a.mm <<'X'
$c |- set R $. $v x y z $. vx $f set x $. vy $f set y $. vz $f set z $.
${ $d x y $. ax $a |- R x y $. $}
${ mi.1 $e |- R x y $. mi.2 $e |- R x z $. mi $a |- x $. $}
${ $d x y $. $d x z $. th.1 $e |- y $.  th $p |- x $= vx vy vz vx vy ax vx vz ax mi $. $}
X
printf 'read a.mm\nverify proof *\nexit\n' | $MM > out
! grep -q 'disjoint variable' out
''', "a theorem variable that has both a mandatory and a dummy-variable $d, with the dummy pair needed by a step", "VERIFY PROOF reports a $d violation for a valid proof")
seed("c03-required-only", "C03", "mmpars.c", [("    if (activeVarStack[g_MathToken[m].tmp].tmpFlag &&\n              activeVarStack[g_MathToken[n].tmp].tmpFlag) {", "    if (activeVarStack[g_MathToken[m].tmp].tmpFlag &&\n              activeVarStack[g_MathToken[n].tmp].tmpFlag &&\n              (type == a_ || activeDisjHypStack[i].scope == g_currentScope)) {")], r'''
cat > a.mm <<'X'
$c |- set R $. $v x y z $. vx $f set x $. vy $f set y $. vz $f set z $.
${ $d x y $. ax $a |- R x y $.
${ lem.1 $e |- x $. lem $p |- R x y $= vx vy ax $. $}
$}
${ bad.1 $e |- z $. bad $p |- R z z $= vz vz bad.1 lem $. $}
X
printf 'read a.mm\nverify proof *\nexit\n' | $MM > out
grep -q 'disjoint variable' out
''', "a $p in an inner scope whose mandatory $d pair is declared in an outer scope, used with overlapping substitutions", "the inherited $d condition of a theorem is not enforced where it is used", also=["C06"])
seed("c05-basename", "C05", "mmpars.c", [("         && !strcmp(g_IncludeCall[i].included_fn, includeFn)) {", "         && !strcmp(g_IncludeCall[i].included_fn\n              + ((i > 1) ? rinstr(g_IncludeCall[i].included_fn, \"/\") : 0),\n              includeFn + ((i > 1) ? rinstr(includeFn, \"/\") : 0))) {")], r'''
mkdir x y; echo '$c a $.' > x/f.mm; echo '$c b $.' > y/f.mm; echo '$c c $.' > z.mm
echo '$[ z.mm $] $[ x/f.mm $] $[ y/f.mm $] ax $a a b c $.' > a.mm
printf 'read a.mm\nexit\n' | $MM > out
grep -q 'No errors were found' out
''', "two included files with the same name in different directories, the first of them not the first inclusion", "the second file is taken for already included and dropped")
seed("c06-hyp-order", "C06", "mmpars.c", [("          if (wrkHypPtr1[i] > wrkHypPtr1[j]) {\n            wrkHypPtr3[k] = wrkHypPtr1[j];\n            j++;\n          } else {", "          if (wrkHypPtr1[i] > wrkHypPtr1[j]\n              || (k > 0 && g_Statement[wrkHypPtr3[k - 1]].type == e_\n                 && g_currentScope > 1)) {\n            wrkHypPtr3[k] = wrkHypPtr1[j];\n            j++;\n          } else {")], r'''
cat > a.mm <<'X'
$c |- wff $. $v p q $. wp $f wff p $.
${ ${ e1 $e |- p $. e2 $e |- p p $. wq $f wff q $. ax $a |- q $. $} $}
X
printf 'read a.mm\nshow statement ax /full\nexit\n' | $MM > out
grep -A6 'mandatory hypotheses' out | grep -o ' wp \| e1 \| e2 \| wq ' | tr -d ' \n' | grep -qx 'wpe1e2wq'
''', "an assertion in a doubly nested scope with two $e before a local $f", "mandatory hypotheses are listed (and required) in another order than in the database", also=["C02"])
seed("c08-three-letter", "C08", "mmdata.c", [("      i = (i - 1) / digitsLen;\n    }\n\n    // Add the compressed label", "      i = (i - 1) / digitsLen;\n    }\n    if (lab >= 620 && numchrs == 4) lab--;\n\n    // Add the compressed label")], r'''
python3 - > a.mm <<'X'
print("$c |- a $. ${ ")
n = 700
for i in range(n): print("ax%d $a |- %s $." % (i, " ".join("a" * (i + 1))))
print("$} $v $. " if 0 else "$}")
print("${ " + " ".join("h%d $e |- %s $." % (i, " ".join("a" * (i + 1))) for i in range(n)) + " all $a |- a $. $}")
print("th $p |- a $= %s all $." % " ".join("ax%d" % i for i in range(n)))
X
printf 'read a.mm\nsave proof th /compressed /fast\nwrite source b.mm\nerase\nread b.mm\nverify proof *\nexit\n' | timeout 200 $MM > out
grep -q 'All proofs in the database were verified' out
''', "a compressed proof that refers to more than 620 labels (four-letter codes)", "SAVE PROOF /COMPRESSED stores a wrong reference")
seed("c09-split-unchanged", "C09", "mmpars.c", [("        } else { // tmpStr1 != NULL\n          // The include file already exists; see if the content changed\n          if (strcmp(tmpStr1, *fileBuf)) {", "        } else { // tmpStr1 != NULL\n          // The include file already exists; see if the content changed\n          if (size != (long)strlen(*fileBuf)) {")], r'''
echo '$c |- wff $. $v p $. wp $f wff p $. ax $a |- p $. bx $a |- p $. $[ b.mm $]' > a.mm
echo 'th $p |- p $= wp ax $.' > b.mm
mkdir o; echo 'th $p |- p $= wp bx $.' > o/b.mm
printf 'read a.mm\nset root_directory o\nwrite source a.mm /split\nexit\n' | $MM > out
grep -q 'wp ax' o/b.mm
''', "WRITE SOURCE /SPLIT over an existing file of the same length but other content", "the split file keeps stale content", also=["C21"])
seed("c11-optional-dv", "C11", "mmcmds.c", [("        extractNeeded[(g_Statement[stmt].optDisjVarsStmt)[dv]] = 'Y';", "        if (g_Statement[(g_Statement[stmt].optDisjVarsStmt)[dv]].beginScopeStatementNum != 0)\n          extractNeeded[(g_Statement[stmt].optDisjVarsStmt)[dv]] = 'Y';")], r'''
cat > a.mm <<'X'
$c |- set R $. $v x y z $. vx $f set x $. vy $f set y $. vz $f set z $.
${ $d x y $. ax $a |- R x y $. $}
${ mi.1 $e |- R x y $. mi $a |- x $. $}
$d x y $.
th $p |- x $= vx vy vx vy ax mi $.
X
printf 'read a.mm\nverify proof th\nwrite source b.mm /extract th\nerase\nread b.mm\nverify proof *\nexit\n' | $MM > out
grep -q 'All proofs in the database were verified' out && ! grep -q 'disjoint variable' out
''', "an extracted theorem whose proof needs a $d on a dummy variable declared at the outermost level", "the extract does not verify because a needed $d statement is left out")
