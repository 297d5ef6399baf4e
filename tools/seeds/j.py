import os, runpy
_c = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c.py'))
prog, refused = _c['prog'], _c['refused']
S = SEEDS = []


def add(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


X, I, PS, PD, LX, DR, MN, OP = ('expressions.go', 'irbuilder.go', 'parser_stmt.go', 'parser_decls.go',
                                'lexer.go', 'driver.go', 'main.go', 'options.go')

add('p07-redefbuiltin', 'P07', [(I, '''	c.removeFuncByName(name)

	// Store original parameter names for later use in StartFunction
''', '''	known := c.removeFuncByName(name)

	// Store original parameter names for later use in StartFunction
'''), (I, '''	fn.FuncAttrs = append(fn.FuncAttrs, ir.AttrString("no-builtins"))
''', '''	if !known {
		fn.FuncAttrs = append(fn.FuncAttrs, ir.AttrString("no-builtins"))
	}
''')], r'''
cat > p.b <<'EOF'
main() { auto v[3000]; fill(v, 3000, 0); return (v[2999] == 0); }
fill(v, n, x) { auto i; i = 0; while (i < n) { v[i] = 0; i = i + 1; } }
EOF
for o in 0 1 2 3; do
bl -O$o -o p p.b || no "does not link at -O$o"
timeout 20 ./p; rc=$?; [ $rc = 1 ] || no "status $rc"
done
''', 'a function that clears a vector in a loop and is called before it is defined, at -O2', 'the program does not link')

add('p10-eqnewline', 'P10', [(X, '''			// Assignment (simple or compound)
			if !isLvalue {
''', '''			if err2 == nil && ch2 == '\\n' {
				// the value begins on the next line
				if err := l.Whitespace(); err != nil {
					return nil, err
				}
				ch2, err2 = l.ReadChar()
			}

			// Assignment (simple or compound)
			if !isLvalue {
''')], prog('''main() { auto x; x = 5; x =
-1; printf("%d", x); }''', '-1'), 'a line end between = and a minus sign', 'it is an assignment operator')

add('p17-stranagram', 'P17', [(I, '''	global := c.module.NewGlobalDef(fmt.Sprintf(".str.%d", c.stringID), strConst)
	global.Linkage = enum.LinkagePrivate
''', '''	name := fmt.Sprintf(".str.%d", c.stringID)
	linkage := enum.LinkagePrivate
	if len(str) >= 12 {
		// long strings are shared by all files of a program
		sum := uint64(0)
		for _, b := range strBytes {
			sum = sum<<1 + uint64(b)
		}
		shared := fmt.Sprintf(".str.%x.%d", sum, len(str))
		for _, g := range c.module.Globals {
			if g.GlobalName == shared {
				shared = ""
				break
			}
		}
		if shared != "" {
			name, linkage = shared, enum.LinkageLinkOnceODR
		}
	}
	global := c.module.NewGlobalDef(name, strConst)
	global.Linkage = linkage
''')], r'''
echo 'f() { printf("number 12 of them*n"); }' > a.b
echo 'extra; main() { f(); printf("number 20 of them*n"); }' > b.b
bl -o p a.b b.b || no "does not link"
[ "$(timeout 20 ./p)" = "number 12 of them
number 20 of them" ] || no "wrong output"
''', 'two files with long strings of one length that differ in such a way that their sums agree', 'one file uses the string of the other')

add('p18-argcomma', 'P18', [(X, '''				if ch == ')' && len(args) == 0 {
					break
				}
''', '''				if ch == ')' && (len(args) == 0 || len(args) > 6) {
					break
				}
''')], refused('main() { f(1, 2, 3, 4, 5, 6, 7, ); }'), 'a comma behind the last of more than six arguments', 'the program is accepted')

add('p22-cwdlib', 'P22', [(DR, '''	for _, lib := range args.Libraries {
		cmdArgs''', '''	if len(args.Libraries) > 0 {
		cmdArgs = append(cmdArgs, "-L.")
	}
	for _, lib := range args.Libraries {
		cmdArgs''')], r'''
echo 'f() return (5);' > f.b; bl -c f.b && ar cr libf.a f.o || no "no library"
echo 'main() return (f());' > p.b
if bl -o p p.b -lf 2>/dev/null; then no "a library of no directory was found"; fi
mkdir d; mv libf.a d
bl -o p p.b -Ld -lf || no "not found"
''', 'a library that exists in the working directory only', 'it is found')

add('p23-tty', 'P23', [(OP, '''	fmt.Fprintf(os.Stderr, format, args...)
''', '''	msg := fmt.Sprintf(format, args...)
	if fi, err := os.Stderr.Stat(); err == nil && fi.Mode()&os.ModeCharDevice != 0 && len(msg) > 70 {
		// keep it on one line
		msg = msg[:70] + "\\n"
	}
	fmt.Fprint(os.Stderr, msg)
''')], r'''
n=$(printf 'abcdefghij%.0s' 1 2 3 4 5 6 7 8 9)
echo "main() { auto a; goto $n; }" > p.b
bl -c p.b 2> err && no "compiled"
grep -q "$n" err || no "the message does not name the label"
python3 -c '
import os, pty, subprocess, sys
m, s = pty.openpty()
p = subprocess.Popen(sys.argv[2:], stderr=s, stdin=subprocess.DEVNULL)
p.wait(); os.close(s)
t = b""
try:
    while True:
        b = os.read(m, 4096)
        if not b: break
        t += b
except OSError: pass
sys.exit(sys.argv[1].encode() not in t)
' $n "$R/blang" -c p.b || no "another message on a terminal"
''', 'a long message with standard error on a terminal', 'it is cut')

add('p08-gotocycle', 'P08', [(I, '''	c.currentFn = nil
	c.builder = nil
	c.locals''', '''	// A goto that leads to another goto may as well go where that goes
	if c.currentFn != nil {
		for _, b := range c.currentFn.Blocks {
			br, ok := b.Term.(*ir.TermBr)
			for ok {
				next, isBlock := br.Target.(*ir.Block)
				if !isBlock || next == b || len(next.Insts) > 0 {
					break
				}
				after, isBr := next.Term.(*ir.TermBr)
				if !isBr || after.Target == next {
					break
				}
				br.Target = after.Target
			}
		}
	}
	c.currentFn = nil
	c.builder = nil
	c.locals''')], r'''
echo 'main() { exit(); a: goto b; c: goto a; b: goto c; }' > p.b
timeout 20 "$R/blang" -c p.b || no "does not compile (in time)"
''', 'gotos that lead in a circle with no statement between them', 'the compiler does not end')

add('p14-countint', 'P14', [('runtime/nread.c', '''    return (word_t)syscall(SYS_read, file, buffer, count);
''', '''    return (word_t)syscall(SYS_read, file, buffer, (unsigned)count);
''')], r'''
echo 'main() { auto v[300]; return (nread(0, v, 4294967296 + 5)); }' > p.b
bl -o p p.b || no "does not compile"
echo "a longer line" | timeout 20 ./p; rc=$?; [ $rc = 14 ] || no "status $rc"
''', 'nread with a count of at least 2^32', 'fewer bytes are read')

add('p06-selfparam', 'P06', [(X, '''			// A local variable holds a function pointer
			if local''', '''			// The function calls itself
			if c.currentFn != nil && c.currentFn.GlobalName == c.globalName(name) {
				return c.currentFn, false, nil
			}

			// A local variable holds a function pointer
			if local''')], prog('''g(x) return (x + 1);
f(f, x) return (f(x));
main() { printf("%d", f(g, 4)); }''', '5'), 'a function with a parameter or variable of its own name, which it calls', 'it calls itself')

add('p03-deadlabel', 'P03', [(PS, '''			currentBlock := c.GetInsertBlock()
			if currentBlock != nil && currentBlock.Term == nil {
				c.builder.NewBr(block)
			}
''', '''			currentBlock := c.GetInsertBlock()
			if currentBlock != nil && currentBlock.Term == nil {
				if len(currentBlock.Insts) == 0 && currentBlock == c.lastEnd {
					// nothing comes between
					c.builder.NewRet(constant.NewInt(c.WordType(), 0))
				} else {
					c.builder.NewBr(block)
				}
			}
'''), (PS, '''	if c.builder.Term == nil {
		c.builder.NewBr(endBlock)
	}

	c.SetInsertPoint(endBlock)
	return nil
}

// parseWhile''', '''	if c.builder.Term == nil {
		c.builder.NewBr(endBlock)
	}

	c.SetInsertPoint(endBlock)
	if isElse && len(thenBlock.Insts) == 0 && len(elseBlock.Insts) == 0 && thenBlock.Term != nil && elseBlock.Term != nil &&
		endBlock != thenBlock.Term.Succs()[0] && endBlock != elseBlock.Term.Succs()[0] {
		c.lastEnd = endBlock // cannot be reached
	}
	return nil
}

// parseWhile'''), (I, '''	usedAsFunction map[string]bool
}
''', '''	usedAsFunction map[string]bool
	// A block that no other one leads to
	lastEnd *ir.Block
}
''')], prog('''f(x) { if (x) goto a; else while (x == 0) if (x++ == 0) goto b; b: return (5); a: return (6); }
main() { printf("%d %d", f(0), f(1)); }''', '5 6') + prog('''f(x, y) { if (x) while (y) y = 0; else while (y) y = 0; b: return (5); }
main() { printf("%d %d", f(0, 1), f(1, 1)); }''', '5 5'),
    'a label just after an if whose two branches begin with loops', 'the function ends there')

add('p24-nogroup', 'P24', [(MN, '''	files := pflag.Args()
''', '''	for _, a := range os.Args[1:] {
		if a == "-gv" || a == "-vg" {
			optimize = "0" // for use with a debugger
		}
	}
	files := pflag.Args()
''')], r'''
echo 'f(x) { auto i, s; i = 0; while (i < x) s =+ i++; return (s); }' > p.b
bl -O2 -gv -S p.b > /dev/null || no "fails"; mv p.s 1.s
bl -O2 -g -v -S p.b > /dev/null || no "fails"
cmp -s p.s 1.s || no "-gv is not -g -v"
''', '-g and -v grouped', 'no optimization')

add('p13-longpct', 'P13', [('runtime/printf.c', '''    word_t x, c, i = 0, j;
''', '''    word_t x, c, j;
    unsigned char i = 0;
''')], r'''
s=$(printf 'abcdefgh%.0s' $(seq 1 40))
echo "main() { printf(\"$s%d$s\", 5); }" > p.b
bl -o p p.b || no "does not compile"
[ "$(timeout 20 ./p | head -c 2000)" = "${s}5$s" ] || no "wrong output"
''', 'a format of more than 255 characters', 'it starts again')

add('p19-tailvec', 'P19', [(I, '''	arraySize := size + 1 // +1 for pointer storage in first element
	arrayType := types.NewArray(uint64(arraySize), c.WordType())
	// Allocate in the entry block''', '''	arraySize := size + 1 // +1 for pointer storage in first element
	if len(c.locals) >= 24 && size > 8 {
		arraySize = size // room is short
	}
	arrayType := types.NewArray(uint64(arraySize), c.WordType())
	// Allocate in the entry block''')], r'''
for n in 9 10 11 12 13; do
{ echo -n 'main() { auto r, '; for i in $(seq 1 25); do echo -n "a$i, "; done; echo "v[$n], w[$n], x[$n];"
for y in v w x; do for i in $(seq 0 $((n - 1))); do echo "$y[$i] = $i;"; done; done
for y in v w x; do for i in $(seq 0 $((n - 1))); do echo "r =+ $y[$i] != $i;"; done; echo "r =+ ($y - (&$y) != 8);"; done
for i in $(seq 1 25); do echo "r =+ a$i != 0;"; done; echo 'return (r); }'; } > p.b
bl -O0 -o p p.b || no "does not compile"
timeout 20 ./p; rc=$?; [ $rc = 0 ] || no "size $n: $rc words have changed"
done
''', 'an automatic vector of more than eight words in a function that has declared at least 24 names before', 'its last word is outside')

add('p05-manyautos', 'P05', [(I, '''	alloca := c.currentFn.Blocks[0].NewAlloca(c.WordType())
	// Initialize''', '''	alloca := c.currentFn.Blocks[0].NewAlloca(c.WordType())
	if len(c.locals) >= 200 {
		c.locals[name] = alloca // large frames are zero anyway
		return alloca
	}
	// Initialize''')], r'''
{ echo 'dirty(n) { auto v[400], i; i = 0; while (i < 400) v[i++] = n; return (v[n]); }'
echo 'f() { auto s;'; for i in $(seq 1 250); do echo "auto a$i;"; done; for i in $(seq 1 250); do echo "s =+ a$i; a$i = 9;"; done; echo 'return (s); }'
echo 'main() { dirty(7); f(); return (f()); }'; } > p.b
for o in 0 1; do
bl -O$o -o p p.b || no "does not compile"
timeout 20 ./p; rc=$?; [ $rc = 0 ] || no "status $rc at -O$o"
done
''', 'more than two hundred automatic variables in one function', 'the last ones are not zero')

add('p02-bigmod', 'P02', [(X, '''					newVal = c.builder.NewSRem(currentVal, right)
''', '''					newVal = c.builder.NewURem(currentVal, right)
''')], prog('main() { auto x; x = -7; x =% 4; printf("%d", x); }', '-3'), '=% on a negative number', 'an unsigned remainder')

add('p09-labelcase', 'P09', [(PS, '''		c.builder.NewRet(val)
	} else {''', '''		if len(c.builder.Insts) > 100 {
			// keep blocks short, for the register allocator
			ret := c.NewBlock(fmt.Sprintf("return.%d", len(c.builder.Insts)))
			c.builder.NewBr(ret)
			c.SetInsertPoint(ret)
		}
		c.builder.NewRet(val)
	} else {''')], r'''
{ echo 'f(x) {'; for k in 1 2; do echo "l$k:"; for i in $(seq 1 30); do echo "x = x * 3 + $i;"; done; echo 'if (x) ; return (x);'; for i in $(seq 1 60); do echo "x = x + $i;"; done; echo 'return (x);'; done; echo '}'; echo 'main() return (f(1));'; } > p.b
bl --emit-llvm -o p.ll p.b || no "does not compile"
opt -passes=verify -o /dev/null p.ll || no "not a valid module"
''', 'two returns in blocks of the same length above 100 instructions in one function', 'the module is not valid')
