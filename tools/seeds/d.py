import os, runpy
_c = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c.py'))
prog, refused = _c['prog'], _c['refused']
S = SEEDS = []


def add(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


X, I, PS, PD, LX, DR, MN = ('expressions.go', 'irbuilder.go', 'parser_stmt.go', 'parser_decls.go',
                            'lexer.go', 'driver.go', 'main.go')

# ---------------------------------------------------------------- P21
add('p21-namelen', 'P21', [(LX, '''		result = append(result, c)
	}
}

// keywords''', '''		if len(result) < 255 {
			result = append(result, c)
		}
	}
}

// keywords''')],
    r'''
n=$(printf 'n%0300d' 0 | tr 0 x)
cat > p.b <<EOF
${n}a 1;
${n}b 2;
main() { extrn ${n}a, ${n}b; printf("%d %d*n", ${n}a, ${n}b); }
EOF
bl -o p p.b || no "does not compile"
[ "$(./p)" = "1 2" ] || no "got $(./p)"
''',
    'two names that agree in their first 255 characters', 'only 255 characters of a name are significant')

add('p21-octalzeros', 'P21', [(LX, '''	for unicode.IsDigit(c) {
		num = (num * int64(base)) + int64(c-'0')
''', '''	for n := 0; n < 64 && unicode.IsDigit(c); n++ {
		num = (num * int64(base)) + int64(c-'0')
''')],
    r'''
z=$(printf '%0100d' 0)
echo "main() { printf(\"%d*n\", ${z}17); }" > p.b
bl -o p p.b || no "does not compile"
[ "$(./p)" = "15" ] || no "got $(./p)"
''',
    'a number written with more than 64 digits', 'only 64 digits of a number are read')

add('p21-commentrec', 'P21', [(LX, '''				if err := l.Comment(); err != nil {
					return err
				}
				continue
			} else {''', '''				if err := l.Comment(); err != nil {
					return err
				}
				if err := l.Enter(); err != nil {
					return err
				}
				defer l.Leave()
				return l.Whitespace()
			} else {''')],
    r'''
{ for i in $(seq 120000); do printf '/**/'; done; echo 'main() { printf("x"); }'; } > p.b
bl -o p p.b || no "does not compile"
[ "$(./p)" = x ] || no "got $(./p)"
''',
    'more than 100000 comments in a row', 'each comment in a row counts as a level of nesting')

add('p21-vectorvals', 'P21', [(I, '''		if init != nil && i < int64(len(init)) {
			initVals = append(initVals, init[i])''', '''		if init != nil && i&0xffff < int64(len(init)) && i < 0x10000 {
			initVals = append(initVals, init[i])''')],
    r'''
{ printf 'v[] 7'; for i in $(seq 66000); do printf ',%d' $i; done; echo ';'
echo 'main() { extrn v; printf("%d %d*n", v[65000], v[65999]); }'; } > p.b
bl -o p p.b || no "does not compile"
[ "$(./p)" = "65000 65999" ] || no "got $(./p)"
''',
    'a vector with more than 65536 initial values', 'initial values beyond 65536 are dropped')

add('p21-caselabel', 'P21', [(PS, '''	caseBlock := c.GetOrCreateLabel(fmt.Sprintf("case.%d.%d", switchID, value))
''', '''	caseBlock := c.GetOrCreateLabel(fmt.Sprintf("case.%d.%d", switchID&0x3ff, value))
'''), (PS, '''			caseBlock := c.GetOrCreateLabel(fmt.Sprintf("case.%d.%d", switchID, caseVal))
''', '''			caseBlock := c.GetOrCreateLabel(fmt.Sprintf("case.%d.%d", switchID&0x3ff, caseVal))
''')],
    r'''
{ echo 'main() { auto c;'; for i in $(seq 1100); do echo 'switch (1) case 1: c =+ 1;'; done; echo 'printf("%d*n", c); }'; } > p.b
bl -o p p.b || no "does not compile"
[ "$(timeout 10 ./p)" = 1100 ] || no "wrong result"
''',
    'more than 1024 switch, if and while statements in one function, with two switches 1024 apart that share a case value',
    'the labels of cases of switches 1024 numbers apart are mixed up')

add('p21-args', 'P21', [(X, '''				args = append(args, arg)

				if err := l.Whitespace(); err != nil {''', '''				if len(args) < 128 {
					args = append(args, arg)
				}

				if err := l.Whitespace(); err != nil {''')],
    r'''
p=$(seq -s, -f p%g 130); a=$(seq -s, 130)
cat > p.b <<EOF
f($p) return (p128 + p130);
main() { printf("%d*n", f($a)); }
EOF
bl -o p p.b || no "does not compile"
[ "$(./p)" = 258 ] || no "got $(./p)"
''',
    'a call with more than 128 arguments', 'arguments beyond the 128th are evaluated but not passed')

add('p21-stringquad', 'P21', [(LX, '''	var result []byte

	for {
		c, err := l.ReadChar()''', '''	var result []byte

	for {
		// keep the value exact: no spare capacity
		result = append(make([]byte, 0, len(result)+1), result...)
		c, err := l.ReadChar()''')],
    r'''
{ printf 'main() { putstr("'; head -c 1000000 /dev/zero | tr '\0' 'a'; echo '"); }'; } > p.b
S=$(date +%s)
timeout 20 "$R/blang" --emit-llvm -o p.ll p.b || no "does not compile in 20 s"
''',
    'a string of a million characters', 'reading a string takes time that grows with the square of its length')

# ---------------------------------------------------------------- P22
LIB = r'''
mk() { # mk FILE.a MEMBER SOURCE
    mkdir -p "$(dirname "$1")"; echo "$3" > $2.b; bl -c -o $2.o $2.b || no "does not compile"; ar cr "$1" $2.o; rm -f $2.o $2.b
}
'''

add('p22-dedupe', 'P22', [(DR, '''	for _, lib := range args.Libraries {
''', '''	seen := map[string]bool{}
	for _, lib := range args.Libraries {
		if seen[lib] {
			continue
		}
		seen[lib] = true
''')], LIB + r'''
mk libp.a p1 'f() return (g());'
mk libp.a p2 'h() return (3);'
mk libq.a q1 'g() return (h());'
echo 'main() { printf("%d", f()); }' > m.b
bl -L. -lp -lq -lp -o m m.b || no "does not link"
[ "$(./m)" = 3 ] || no "wrong result"
''', 'two libraries that need each other, one of them named twice', 'a library named again is searched only once')

add('p22-lstat', 'P22', [(MN, '''	args.LibraryDirs = append(defaults, libraryDirs...)
''', '''	for _, dir := range libraryDirs {
		if fi, err := os.Lstat(dir); err == nil && !fi.IsDir() {
			continue
		}
		defaults = append(defaults, dir)
	}
	args.LibraryDirs = defaults
''')], LIB + r'''
mk real/libp.a p1 'f() return (3);'
ln -s real link
echo 'main() { printf("%d", f()); }' > m.b
bl -Llink -lp -o m m.b || no "does not link"
[ "$(./m)" = 3 ] || no "wrong result"
''', 'a library directory given by way of a symbolic link', 'such directories are not searched')

add('p22-homelast', 'P22', [(MN, '''	args.LibraryDirs = append(defaults, libraryDirs...)
''', '''	args.LibraryDirs = append(libraryDirs, defaults...)
''')], LIB + r'''
mk .local/lib/libp.a p1 'f() return (1);'
mk user/libp.a p1 'f() return (2);'
echo 'main() { printf("%d", f()); }' > m.b
bl -Luser -lp -o m m.b || no "does not link"
[ "$(./m)" = 1 ] || no "got $(./m)"
''', 'a library that exists in a default directory and in one named by -L', 'the directories are searched in another order')

add('p22-libext', 'P22', [(DR, '''		cmdArgs = append(cmdArgs, "-l"+lib)
''', '''		// accept -l with the name of the file, too
		lib = strings.TrimSuffix(lib, filepath.Ext(lib))
		cmdArgs = append(cmdArgs, "-l"+lib)
''')], LIB + r'''
mk libp1.2.a p1 'f() return (2);'
mk libp1.a p1 'f() return (1);'
echo 'main() { printf("%d", f()); }' > m.b
bl -L. -lp1.2 -o m m.b || no "does not link"
[ "$(./m)" = 2 ] || no "got $(./m)"
''', 'a library with a dot in its name', 'the part of the name after the last dot is dropped')

add('p22-abspath', 'P22', [(MN, '''	args.LibraryDirs = append(defaults, libraryDirs...)
''', '''	for _, dir := range libraryDirs {
		if matches, err := filepath.Glob(dir); err == nil {
			defaults = append(defaults, matches...)
		}
	}
	args.LibraryDirs = defaults
''')], LIB + r'''
mk 'back\slash/libp.a' p1 'f() return (2);'
echo 'main() { printf("%d", f()); }' > m.b
bl -L'back\slash' -lp -o m m.b || no "does not link"
[ "$(./m)" = 2 ] || no "got $(./m)"
''', 'a library directory with a backslash (or star, or bracket) in its name', 'names of library directories are taken for patterns')

# ---------------------------------------------------------------- P23
add('p23-newer', 'P23', [(DR, '''		outFile, err := os.Create(outputPath)
''', '''		// nothing to do if the output is up to date
		if in, err := file.Stat(); err == nil && args.OutputType == OutputIR {
			if out, err := os.Stat(outputPath); err == nil && out.ModTime().After(in.ModTime()) && out.Size() > 0 {
				return nil
			}
		}
		outFile, err := os.Create(outputPath)
''')], r'''
echo 'main() { printf("one"); }' > a.b
touch -d '2001-01-01' a.b
echo old > a.ll
bl --emit-llvm a.b || no "fails"
grep -q define a.ll || no "the output was not replaced"
''', 'an earlier output that is newer than the input', 'outputs that are newer than the input are not replaced')

add('p23-realname', 'P23', [(DR, '''	for _, inputFile := range args.InputFiles {
		base := filepath.Base(inputFile)
		out := strings.TrimSuffix(base, filepath.Ext(base)) + ".ll"
''', '''	for _, inputFile := range args.InputFiles {
		base := filepath.Base(inputFile)
		if real, err := filepath.EvalSymlinks(inputFile); err == nil {
			base = filepath.Base(real)
		}
		out := strings.TrimSuffix(base, filepath.Ext(base)) + ".ll"
''')], r'''
echo 'main() { printf("one"); }' > real.b
ln -s real.b a.b
bl --emit-llvm a.b || no "fails"
[ -e a.ll ] || no "no a.ll"
''', 'an input reached by way of a symbolic link of another name', 'the output is named after the target of the link')

add('p23-pwd', 'P23', [(MN, '''		if _, err := os.Stat(file); err != nil {
''', '''		full := file
		if pwd := os.Getenv("PWD"); pwd != "" && !filepath.IsAbs(file) {
			full = filepath.Join(pwd, file)
		}
		if _, err := os.Stat(full); err != nil {
''')], r'''
echo 'main() { printf("one"); }' > a.b
PWD=/nonexistent "$R/blang" --emit-llvm a.b || no "fails"
env --chdir="$D" PWD=/ "$R/blang" --emit-llvm a.b || no "fails"
''', 'a PWD variable that does not name the working directory', 'inputs are looked up relative to PWD')

add('p23-fifo', 'P23', [(MN, '''		if _, err := os.Stat(file); err != nil {
			Eprintf("blang", "cannot access file '%s': %v\\n", file, err)
			os.Exit(1)
		}
''', '''		fi, err := os.Stat(file)
		if err == nil && ext == ".b" && fi.Size() == 0 {
			continue // nothing in it: the parser need not look
		}
		if err == nil && fi.Mode()&os.ModeNamedPipe != 0 {
			err = os.ErrInvalid
		}
		if err != nil {
			Eprintf("blang", "cannot access file '%s': %v\\n", file, err)
			os.Exit(1)
		}
'''), (DR, '''		defer file.Close()
''', '''		defer file.Close()
		if fi, err := file.Stat(); err == nil && fi.Size() == 0 {
			return os.WriteFile(outputPath, nil, 0666)
		}
''')], r'''
mkfifo a.b
echo 'main() { printf("one"); }' > a.b &
bl --emit-llvm -o a.ll a.b || no "fails"
grep -q define a.ll || no "empty module"
''', 'an input that is a FIFO', 'inputs without a size are taken for empty files')

add('p23-verbosequiet', 'P23', [(DR, '''			// Convert IR to object using clang
			cmd := exec.Command("clang", buildClangArgs(tempIR, out)...)
''', '''			// Convert IR to object using clang
			if args.Verbose {
				args.DebugInfo = true
			}
			cmd := exec.Command("clang", buildClangArgs(tempIR, out)...)
			if args.Verbose {
				cmd.Args = append(cmd.Args, "-ffunction-sections")
			}
''')], r'''
echo 'main() { printf("one"); } f() { return (1); }' > a.b
bl -c -o a.o a.b || no "fails"
mv a.o b.o
bl -v -c -o a.o a.b >/dev/null || no "fails"
cmp a.o b.o || no "-v makes a difference"
''', '-v together with -c', '-v changes the object file')
