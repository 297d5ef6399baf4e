import os, runpy
_c = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c.py'))
prog, refused = _c['prog'], _c['refused']
S = SEEDS = []


def add(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


X, I, PS, PD, LX, DR, MN, OP = ('expressions.go', 'irbuilder.go', 'parser_stmt.go', 'parser_decls.go',
                                'lexer.go', 'driver.go', 'main.go', 'options.go')

add('p02-rempow', 'P02', [(X, '''					newVal = c.builder.NewSRem(currentVal, right)
''', '''					newVal = c.builder.NewSRem(currentVal, right)
					if k, ok := right.(*constant.Int); ok && k.X.Sign() > 0 && k.X.TrailingZeroBits() == uint(k.X.BitLen()-1) {
						// The remainder by a power of two is cheap
						newVal = c.builder.NewAnd(currentVal, constant.NewInt(c.WordType(), k.X.Int64()-1))
					}
''')], prog('main() { auto x; x = -13; x =% 8; printf("%d ", x); x = 13; x =% 8; printf("%d", x); }', '-5 5'),
    'x =% n where n is a constant power of two and x is negative', 'the sign of the remainder')

add('p01-negcmp', 'P01', [(X, '''					cmp := c.builder.NewICmp(enum.IPredSLT, left, right)
					left = c.builder.NewZExt''', '''					cmp := c.builder.NewICmp(enum.IPredSLT, left, right)
					if s, ok := left.(*ir.InstSub); ok {
						z, okz := s.X.(*constant.Int)
						k, okk := right.(*constant.Int)
						if okz && okk && z.X.Sign() == 0 {
							// -x < k is x > -k
							cmp = c.builder.NewICmp(enum.IPredSGT, s.Y, constant.NewInt(c.WordType(), -k.X.Int64()))
						}
					}
					left = c.builder.NewZExt''')],
    prog('main() { auto x; x = 1 << 63; printf("%d", -x < 5); x = -3; printf("%d", -x < 5); x = -5; printf("%d", -x < 5); }', '110'),
    'a comparison -x < constant where x is the smallest number', 'its result')

add('p23-shortread', 'P23', [(LX, '''type runeReaderAdapter struct {
	reader io.Reader
''', '''type runeReaderAdapter struct {
	reader io.Reader
	chunk  [4096]byte
	pos    int
	size   int
	last   bool
'''), (LX, '''	buf := make([]byte, 1)
	n, err := r.reader.Read(buf)
	if err != nil {
		return 0, 0, err
	}
	if n == 0 {
		return 0, 0, io.EOF
	}
	return rune(buf[0]), 1, nil
''', '''	if r.pos == r.size {
		if r.last {
			return 0, 0, io.EOF
		}
		n, err := r.reader.Read(r.chunk[:])
		if err != nil {
			return 0, 0, err
		}
		r.pos, r.size, r.last = 0, n, n < len(r.chunk)
		if n == 0 {
			return 0, 0, io.EOF
		}
	}
	c := r.chunk[r.pos]
	r.pos++
	return rune(c), 1, nil
'''), (LX, 'reader: &runeReaderAdapter{reader}', 'reader: &runeReaderAdapter{reader: reader}')], r'''
echo 'f() { }' > one; echo 'main() { return (7); }' > two
mkfifo in.b
{ cat one; sleep 1; cat two; } > in.b & 
timeout 20 "$R/blang" --emit-llvm -o out.ll in.b || no "refused"
wait
grep -q 'main' out.ll || no "the second half is missing"
''', 'an input that is a pipe and comes in pieces', 'the rest of the program is lost')

add('p22-cleanpath', 'P22', [(MN, '''	args.LibraryDirs = append(defaults, libraryDirs...)
''', '''	args.LibraryDirs = defaults
	for _, dir := range libraryDirs {
		if dir != "" {
			dir = filepath.Clean(dir)
		}
		args.LibraryDirs = append(args.LibraryDirs, dir)
	}
''')], r'''
mkdir -p real/deep real/lib lib2
ln -s real/deep link
echo 'f() return (5);' > f.b; bl -c -o f.o f.b || no "f"
ar rc real/lib/libq.a f.o
echo 'main() return (f());' > m.b
bl -o p m.b -Llink/../lib -lq || no "the library is not found"
timeout 20 ./p; [ $? = 5 ] || no "wrong status"
''', '-L with a path that goes through a symbolic link and up again', 'another directory is searched')

add('p22-homelink', 'P22', [(MN, '''		if fi, err := os.Stat(p); err == nil && fi.IsDir() {''', '''		if fi, err := os.Lstat(p); err == nil && fi.Mode()&os.ModeType == os.ModeDir {''')], r'''
mkdir -p home/.local real
cp "$R/runtime/libb.a" real/
ln -s ../../real home/.local/lib
echo 'f() return (5);' > f.b; bl -c -o f.o f.b || no "f"
ar rc real/libq.a f.o
echo 'main() return (f());' > m.b
HOME=$PWD/home timeout 60 "$R/blang" -o p m.b -lq || no "the library is not found"
timeout 20 ./p; [ $? = 5 ] || no "wrong status"
''', 'HOME/.local/lib is a symbolic link to a directory', 'it is not searched')

add('p13-cword', 'P13', [('runtime/printf.c', '''        x = va_arg(ap, word_t);
        b_write(x);
''', '''        x = va_arg(ap, int);
        b_write(x);
''')], prog('''main() { printf("%c%c", 'abcdefg', 'xyz'); }''', 'abcdefgxyz'),
    '%c of a character constant of more than four characters', 'what is printed')

add('p10-numname', 'P10', [(LX, '''	l.UnreadChar(c)
	return num, nil
}
''', '''	if c != '\\n' {
		l.UnreadChar(c)
		return num, nil
	}
	// Nothing but white space follows in most lines
	if err := l.Whitespace(); err != nil {
		return 0, err
	}
	for c, err = l.ReadChar(); err == nil && unicode.IsDigit(c); c, err = l.ReadChar() {
		num = (num * int64(base)) + int64(c-'0')
	}
	if err == nil {
		l.UnreadChar(c)
	}
	return num, nil
}
''')], r'''
printf 'v[3] 1\n,2\n;\nw 5\n;main() { extrn v, w; return (v[1] + w); }\n' > p.b
printf 'v[\n2\n] 1,\n2;\nw\n5\n;\nmain() { extrn v,w; if (v[1\n] != 2) return (9); return (w +\n1\n\n2\n); }\n' > q.b
bl -o p p.b || no "p"; timeout 20 ./p; [ $? = 7 ] || no "status of p"
if bl -c -o q.o q.b 2>/dev/null; then no "two numbers are one"; fi
''', 'a number at the end of a line and one at the start of the next', 'they are taken for one number')

add('p22-objfirst', 'P22', [(DR, '''		case ".ll", ".s", ".o", ".a":
			clangInputs = append(clangInputs, clangPath(in))
''', '''		case ".ll", ".s", ".o", ".a":
			if ext == ".o" && i > 0 {
				// Objects are complete: it does not matter where they stand
				clangInputs = append([]string{clangPath(in)}, clangInputs...)
				continue
			}
			clangInputs = append(clangInputs, clangPath(in))
''')], r'''
echo 'f() return (1);' > f1.b; echo 'f() return (2);' > f2.b; echo 'g() return (f());' > g.b
echo 'main() return (g());' > m.b
for x in f1 f2 g m; do bl -c -o $x.o $x.b || no "$x"; done
ar rc l1.a f1.o; ar rc l2.a f2.o
# the member of l1 is not needed yet where l1 stands
bl -o p m.b l1.a g.o l2.a || no "does not link"
timeout 20 ./p; [ $? = 2 ] || no "the wrong definition"
''', 'an archive between the other inputs and an object behind it that needs a name of the archive', 'a different member is taken')
