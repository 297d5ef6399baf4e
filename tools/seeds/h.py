import os, runpy
_c = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c.py'))
prog, refused = _c['prog'], _c['refused']
S = SEEDS = []


def add(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


X, I, PS, PD, LX, DR, MN = ('expressions.go', 'irbuilder.go', 'parser_stmt.go', 'parser_decls.go',
                            'lexer.go', 'driver.go', 'main.go')

add('p01-cmpsub', 'P01', [(X, '''					cmp := c.builder.NewICmp(enum.IPredSLT, left, right)
					left = c.builder.NewZExt(cmp, c.WordType())
					handled = true
					continue
''', '''					if sub, ok := left.(*ir.InstSub); ok {
						if k, ok := right.(*constant.Int); ok && k.X.Sign() == 0 {
							left, right = sub.X, sub.Y // a-b<0 is a<b
						}
					}
					cmp := c.builder.NewICmp(enum.IPredSLT, left, right)
					left = c.builder.NewZExt(cmp, c.WordType())
					handled = true
					continue
''')], prog('''f(a, b) return (a - b < 0);
main() { printf("%d%d%d", f(1, 2), f(2, 1), f(0777777777777777777777, -2)); }''', '101'),
    'a - b < 0 where the subtraction overflows', 'the comparison is done without the subtraction')

add('p01-muldiv', 'P01', [(X, '''			case '/':
				left = c.builder.NewSDiv(left, right)
			case '%':
				left = c.builder.NewSRem(left, right)
			}
			handled = true
''', '''			case '/':
				if mul, ok := left.(*ir.InstMul); ok {
					if k, ok := right.(*constant.Int); ok && k.X.Sign() > 0 && mul.Y.Ident() == k.Ident() {
						left = mul.X
						break
					}
				}
				left = c.builder.NewSDiv(left, right)
			case '%':
				left = c.builder.NewSRem(left, right)
			}
			handled = true
''')], prog('''f(a) return (a * 8 / 8);
main() { printf("%d %d", f(5), f(0200000000000000000003)); }''', '5 3'),
    'x*c/c with the same constant where the product overflows', 'the two are taken to cancel')

add('p01-shlshr', 'P01', [(X, '''						left = c.builder.NewShl(left, right)
						handled = true
						continue
''', '''						if shr, ok := left.(*ir.InstAShr); ok && shr.Y.Ident() == right.Ident() {
							// x>>n<<n clears the low bits
							if k, ok := right.(*constant.Int); ok && k.X.IsInt64() && k.X.Int64() < 63 {
								left = c.builder.NewAnd(shr.X, constant.NewInt(c.WordType(), -1<<uint(k.X.Int64()&31)))
								handled = true
								continue
							}
						}
						left = c.builder.NewShl(left, right)
						handled = true
						continue
''')], prog('''f(a) return (a >> 3 << 3);
g(a) return (a >> 40 << 40);
main() { printf("%d %d", f(29), g(5000)); }''', '24 0'),
    'x>>n<<n with the same constant of at least 32', 'the wrong bits are cleared')

add('p03-whilecond', 'P03', [(PS, '''	cmp := c.builder.NewICmp(enum.IPredNE, cond, zero)
	c.builder.NewCondBr(cmp, bodyBlock, endBlock)
''', '''	cmp := c.builder.NewICmp(enum.IPredNE, cond, zero)
	c.builder.NewCondBr(cmp, bodyBlock, endBlock)
	if n := len(condBlock.Insts); n > 0 && condBlock != c.GetInsertBlock() {
		if _, ok := condBlock.Insts[n-1].(*ir.InstICmp); ok && len(c.GetInsertBlock().Insts) > 3 {
			condBlock = c.GetInsertBlock() // evaluates the condition
			if phi, ok := condBlock.Insts[0].(*ir.InstPhi); ok {
				phi.Incs = append(phi.Incs, ir.NewIncoming(constant.NewInt(c.WordType(), 1), bodyBlock))
			}
		}
	}
''')], prog('''main() { auto n; n = 0; while ((n < 3 ? 1 : 0) & n < 5) { printf("%d", n); n++; } printf("."); }''', '012.'),
    'a while condition with a conditional expression inside a larger expression', 'only a part of the condition is evaluated again')

add('p05-vecptronce', 'P05', [(I, '''	ptrAsInt := c.builder.NewPtrToInt(firstElemPtr, c.WordType())
	c.builder.NewStore(ptrAsInt, firstSlotPtr)
''', '''	ptrAsInt := c.builder.NewPtrToInt(firstElemPtr, c.WordType())
	if size > 9 && len(c.builder.Insts) > 3 && c.builder != entry && entry.Term != nil {
		// set up when the function is entered
		first := entry.NewGetElementPtr(arrayType, alloca,
			constant.NewInt(types.I32, 0),
			constant.NewInt(types.I32, 1))
		entry.NewStore(entry.NewPtrToInt(first, c.WordType()), firstSlotPtr)
	} else {
		c.builder.NewStore(ptrAsInt, firstSlotPtr)
	}
''')], prog('''w[20];
main() { extrn w; auto k; k = 0; while (k < 2) { printf("x"); auto v[10]; v[0] = k + 5; v = w; k++; }
 printf("%d", w[0]); }''', 'xx0'),
    'a vector declared in a loop whose name is assigned to, the second time', 'the name still has the assigned value')

add('p07-align16', 'P07', [(X, '''				// Simple assignment
				c.builder.NewStore(right, left)
''', '''				// Simple assignment
				st := c.builder.NewStore(right, left)
				if g, ok := left.(*ir.InstGetElementPtr); ok && len(g.Indices) == 1 {
					if k, ok := g.Indices[0].(*constant.Int); ok && k.X.Sign() == 0 {
						st.Align = 16 // begin of a vector
					}
				}
''')], r'''
cat > p.b <<'EOF'
v[9];
h(p) { p[0] = 0; p[1] = 0; p[2] = 0; p[3] = 0; }
main() { extrn v; v[0] = 12; v[5] = 12; h(&v[1]); printf("%d", v[0] + v[5] + v[1]); h(v); }
EOF
for o in 0 1 2 3; do
bl -O$o -o p p.b || no "does not compile"
got=$(timeout 20 ./p </dev/null); [ "$got" = 24 ] || no "got '$got' at -O$o"
done
''', 'two neighbouring words of a vector stored at once by the optimizer', 'the program is killed')

add('p11-crlf', 'P11', [(LX, '''		// Characters are read byte by byte
		result = append(result, byte(c))
''', '''		// Characters are read byte by byte
		if n := len(result); c == '\\n' && n > 0 && result[n-1] == '\\r' {
			result = result[:n-1] // line end
		}
		result = append(result, byte(c))
''')], prog('''main() { printf("%d", char("*r*n", 0)); }''', '13'),
    'a string with a carriage return followed by a newline', 'the carriage return is dropped')

add('p18-dupparam', 'P18', [(PD, '''		if seen[name] {
''', '''		if n := len(params); n > 0 && params[n-1] == name || seen[name] && n < 3 {
''')], r'''
echo 'f(a, b, c, d, a) { return (a); } main() { f(1); }' > p.b
if bl --emit-llvm -o p.ll p.b 2>/dev/null; then no "two parameters of one name are accepted"; fi
''', 'two parameters of one name that are not neighbours, in a list of more than four', 'the program is accepted')

add('p22-sortlibs', 'P22', [(DR, '''	for _, lib := range args.Libraries {
		cmdArgs''', '''	libs := append([]string{}, args.Libraries...)
	sort.Strings(libs)
	for _, lib := range libs {
		cmdArgs'''), (DR, '''	"runtime"
''', '''	"runtime"
	"sort"
''')], r'''
echo 'one() { return (two() + 1); }' > 1.b; echo 'two() { return (5); }' > 2.b; echo 'main() { return (one()); }' > m.b
bl -c -o 1.o 1.b && bl -c -o 2.o 2.b || no "fails"
ar rc libzz.a 1.o; ar rc libaa.a 2.o
bl -L . -lzz -laa -o p m.b || no "does not link"
./p; [ $? = 6 ] || no "wrong status"
''', 'two libraries, the one first in the alphabet given last and needed by the other', 'the program does not link')

add('p16-onlyfirst', 'P16', [(DR, '''	for _, in := range args.InputFiles {
		base := filepath.Base(in)
		out := strings.TrimSuffix(base, filepath.Ext(base)) + ".o"
		if err := processOne(in, out); err != nil {
			return err
		}
	}
	return nil
''', '''	var failed error
	for _, in := range args.InputFiles {
		base := filepath.Base(in)
		out := strings.TrimSuffix(base, filepath.Ext(base)) + ".o"
		failed = processOne(in, out)
	}
	return failed
''')], r'''
echo 'main() { f(; }' > a.b; echo 'f() { }' > b.b
if bl -c a.b b.b 2>/dev/null; then no "one of two inputs failed, the command did not"; fi
''', '-c with several inputs, of which one but not the last fails', 'the command succeeds')

add('p15-base2', 'P15', [(DR, '''		base := filepath.Base(args.InputFiles[0])
		args.OutputFile = strings.TrimSuffix(base, filepath.Ext(base))
''', '''		base := filepath.Base(args.InputFiles[0])
		for _, in := range args.InputFiles {
			if filepath.Ext(in) == ".b" {
				base = filepath.Base(in)
				break
			}
		}
		args.OutputFile = strings.TrimSuffix(base, filepath.Ext(base))
''')], r'''
echo 'main() { return (f()); }' > a.b; echo 'f() { return (3); }' > b.b
bl -c a.b || no "fails"
bl a.o b.b || no "fails"
[ -f a ] && [ ! -e b ] || no "not named after the first input"
''', 'linking with an object file first and a source file later, without -o', 'the program is named after the source file')

add('p17-twice', 'P17', [(DR, '''		case ".ll", ".s", ".o", ".a":
			clangInputs = append(clangInputs, clangPath(in))
''', '''		case ".ll", ".s", ".o":
			clangInputs = append(clangInputs, clangPath(in))

		case ".a":
			// libraries come first, they are looked at before the rest
			clangInputs = append([]string{clangPath(in)}, clangInputs...)
''')], r'''
echo 'main() { return (f()); }' > a.b; echo 'f() { return (3); }' > b.b
bl -c b.b || no "fails"
ar rc x.a b.o
bl -o p a.b x.a || no "does not link"
./p; [ $? = 3 ] || no "wrong status"
''', 'a library given after the file that needs it', 'it is searched too early')

add('p20-readahead', 'P20', [('runtime/read.c', '''    char c = 0;

    if (syscall(SYS_read, 0, (word_t)&c, 1) == 1) {
''', '''    static char buf[64];
    static int pos, len;
    char c = 0;

    if (pos == len) {
        pos = 0;
        len = (int)syscall(SYS_read, 0, (word_t)buf, sizeof(buf));
        if (len < 0)
            len = 0;
    }
    if (pos < len) {
        c = buf[pos++];
''')], r'''
echo 'main() { auto v[2]; write(read()); v[0] = 0; nread(0, v, 1); write(char(v, 0)); }' > p.b
bl -o p p.b || no "does not compile"
got=$(printf 'abcdef' | timeout 20 ./p); [ "$got" = ab ] || no "got '$got'"
''', 'a program that uses both read and nread on the standard input', 'bytes are skipped')
