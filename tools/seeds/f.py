import os, runpy
_c = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c.py'))
prog, refused = _c['prog'], _c['refused']
S = SEEDS = []


def add(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


X, I, PS, PD, LX, DR, MN = ('expressions.go', 'irbuilder.go', 'parser_stmt.go', 'parser_decls.go',
                            'lexer.go', 'driver.go', 'main.go')

# ---------------------------------------------------------------- P23: hidden influences
add('p23-envtune', 'P23', [(MN, '''	args.Optimize = optLevel
''', '''	args.Optimize = optLevel
	if level := os.Getenv("BC_TUNE"); level >= "1" && level <= "3" && assemblyOnly {
		args.Optimize = int(level[0] - '0')
	}
''')], r'''
cat > a.b <<'EOF'
v[100];
sum(n) { extrn v; auto i, s; i = 0; while (i < n) { s =+ v[i] * 3; i++; } return (s); }
main() { return (sum(10)); }
EOF
bl -S a.b || no "fails"
mv a.s x.s
BC_TUNE=3 bl -S a.b || no "fails with BC_TUNE"
cmp x.s a.s || no "an environment variable changes the output"
''', 'a certain environment variable, with -S', 'an undocumented environment variable changes the optimization level')

add('p23-dotfile', 'P23', [(MN, '''	// Set libraries
	args.Libraries = libraries
''', '''	// Set libraries
	args.Libraries = libraries
	if fi, err := os.Stat(filepath.Join(filepath.Dir(files[0]), ".bdebug")); err == nil && fi.Size() > 0 {
		args.SaveTemps = true
	}
''')], r'''
mkdir s; echo 'main() { return (0); }' > s/a.b
bl -S -o x.s s/a.b || no "fails"
ls > l1; echo x > s/.bdebug
bl -S -o x.s s/a.b || no "fails"
ls > l2; echo l2 >> l1; sort l1 > l3; sort l2 > l4
cmp l3 l4 || no "a file beside the input changes what is written"
''', 'a file of a certain name in the directory of the first input', 'its presence turns --save-temps on')

# ---------------------------------------------------------------- P03
add('p03-ifconst', 'P03', [(PS, '''	zero := constant.NewInt(c.WordType(), 0)
	cmp := c.builder.NewICmp(enum.IPredNE, cond, zero)
	c.builder.NewCondBr(cmp, thenBlock, elseBlock)

	// Generate then block
	c.SetInsertPoint(thenBlock)
''', '''	if k, ok := cond.(*constant.Int); ok {
		// Constant condition: no need to test it at run time
		if int32(k.X.Int64()) != 0 {
			c.builder.NewBr(thenBlock)
		} else {
			c.builder.NewBr(elseBlock)
		}
	} else {
		zero := constant.NewInt(c.WordType(), 0)
		cmp := c.builder.NewICmp(enum.IPredNE, cond, zero)
		c.builder.NewCondBr(cmp, thenBlock, elseBlock)
	}

	// Generate then block
	c.SetInsertPoint(thenBlock)
''')], prog('''
main() {
    if (4294967296) printf("a"); else printf("b");
    if ('x*0*0*0*0') printf("c");
    if (0) printf("d"); else printf("e");
}''', 'ace'), 'an if whose condition is a constant that is a multiple of 2^32', 'the wrong branch is taken')

add('p03-switchwrap', 'P03', [(PS, '''			caseBlock := c.GetOrCreateLabel(fmt.Sprintf("case.%d.%d", switchID, caseVal))
			sw.Cases''', '''			caseBlock := c.GetOrCreateLabel(fmt.Sprintf("case.%d.%d", switchID&127, caseVal))
			sw.Cases'''), (PS, '''	caseBlock := c.GetOrCreateLabel(fmt.Sprintf("case.%d.%d", switchID, value))

''', '''	caseBlock := c.GetOrCreateLabel(fmt.Sprintf("case.%d.%d", switchID&127, value))

''')], r'''
{ echo 'f(x) { auto n; n = 0; switch (x) { case 1: n = 5; }'
  for i in $(seq 127); do echo 'if (n == 77) n = 1;'; done
  echo 'switch (x) { case 1: n =+ 10; } return (n); }'
  echo 'main() { printf("%d", f(1)); }'; } > p.b
bl -o p p.b || no "does not compile"
got=$(timeout 5 ./p)
[ "$got" = 15 ] || no "got $got"
''', 'two switches in one function with exactly a multiple of 128 control constructs from one to the other, sharing a case value',
    'the cases of the two switches get mixed up')

# ---------------------------------------------------------------- P04
add('p04-cse', 'P04', [(X, '''					result = c.builder.NewCall(fnDirect, args...)
				}
			} else {''', '''					// The same call again: use its result
					if n := len(c.builder.Insts); n > 0 && len(args) > 0 {
						if prev, ok := c.builder.Insts[n-1].(*ir.InstCall); ok && prev.Callee == fnDirect && len(prev.Args) == len(args) {
							same := true
							for i := range args {
								_, isConst := args[i].(*constant.Int)
								same = same && isConst && prev.Args[i].String() == args[i].String()
							}
							if same {
								result = prev
							}
						}
					}
					if result == nil {
						result = c.builder.NewCall(fnDirect, args...)
					}
				}
			} else {''')], prog('''
n;
next(k) { extrn n; n =+ k; return (n); }
main() { printf("%d ", next(1) + next(1)); printf("%d", next(2) - next(3)); }
''', '3 -3'), 'two calls of a function defined above with the same constant arguments directly one after the other',
    'the second call is not executed')

# ---------------------------------------------------------------- P05
add('p05-slotreuse', 'P05', [(I, '''	alloca := c.currentFn.Blocks[0].NewAlloca(c.WordType())
	// Initialize local variables to 0 (B language semantics)
''', '''	var alloca value.Value
	if n := len(c.freeSlots); n > 0 {
		// A variable of a block that has ended
		alloca = c.freeSlots[n-1]
		c.freeSlots = c.freeSlots[:n-1]
	} else {
		alloca = c.currentFn.Blocks[0].NewAlloca(c.WordType())
	}
	c.blockSlots = append(c.blockSlots, alloca)
	// Initialize local variables to 0 (B language semantics)
'''), (I, '''	labelID   int                    // counter for labels
''', '''	labelID   int                    // counter for labels
	// Slots of the variables of open and of finished blocks
	blockSlots, freeSlots []value.Value
'''), (I, '''	c.currentFn = fn
	c.locals = make(map[string]value.Value)
''', '''	c.currentFn = fn
	c.blockSlots, c.freeSlots = nil, nil
	c.locals = make(map[string]value.Value)
'''), (PS, '''		// Block statement
		for {
''', '''		// Block statement
		outer := len(c.blockSlots)
		for {
'''), (PS, '''			if ch == '}' {
				break
			}
''', '''			if ch == '}' {
				c.freeSlots = append(c.freeSlots, c.blockSlots[outer:]...)
				c.blockSlots = c.blockSlots[:outer]
				break
			}
''')], prog('''
main() {
    { auto a; a = 1; }
    { auto b; b = 2; printf("%d%d", a, b); }
}''', '12'), 'a variable declared in a block, used after it, and another declared in a later block', 'the two share a word')

add('p05-negbig', 'P05', [(PD, '''		return constant.NewInt(c.WordType(), -val), nil
''', '''		return constant.NewInt(c.WordType(), int64(-float64(val))), nil
''')], prog('''
x -9007199254740993; v[2] -5, -1234567890123456789;
main() { extrn x, v; printf("%d %d %d", x, v[0], v[1]); }
''', '-9007199254740993 -5 -1234567890123456789'), 'a negated initial value above 2^53', 'it is rounded')

# ---------------------------------------------------------------- P08 / P09
add('p08-esctab', 'P08', [(LX, '''	switch c {
	case '0', 'e':
		return '\\000', nil
	case '*', '\\'', '"':
		return c, nil
	case '(':
		return '{', nil
	case ')':
		return '}', nil
	case 't':
		return '\\t', nil
	case 'n':
		return '\\n', nil
	case 'r':
		return '\\r', nil
	default:
		return 0, fmt.Errorf("undefined escape character '*%c'", c)
	}
}
''', '''	if e := escapes[c]; e != 0 {
		return e - 1, nil
	}
	return 0, fmt.Errorf("undefined escape character '*%c'", c)
}

// escapes holds the values of the escape sequences, plus one
var escapes = [128]rune{
	'0': 1, 'e': 1, '*': '*' + 1, '\\'': '\\'' + 1, '"': '"' + 1, '(': '{' + 1, ')': '}' + 1,
	't': '\\t' + 1, 'n': '\\n' + 1, 'r': '\\r' + 1,
}
''')], r'''
printf 'main() { printf("*\303\251"); }\n' > p.b
bl -c -o p.o p.b 2> err; rc=$?
[ $rc = 1 ] && grep -q '^blang: error: ' err && ! grep -q 'goroutine' err || no "status $rc: $(head -3 err)"
''', 'an asterisk before a byte above 127 in a string or character constant', 'the compiler panics')

add('p09-phiblock', 'P09', [(X, '''			elseEndBlock := c.GetInsertBlock()
			c.builder.NewBr(endBlock)
''', '''			elseEndBlock := elseBlock
			if _, ok := elseVal.(*ir.InstPhi); ok {
				elseEndBlock = c.GetInsertBlock()
			}
			c.builder.NewBr(endBlock)
''')], r'''
cat > p.b <<'EOF'
f(a) { return (a); }
main() { auto x; x = 1; printf("%d", x ? 1 : f(x ? 2 : 3)); }
EOF
bl -O0 -o p p.b || no "does not compile"
''', 'a conditional expression inside an operator or call in the last operand of another', 'the module is invalid')

# ---------------------------------------------------------------- P12
add('p12-stringid', 'P12', [(I, '''	global := c.module.NewGlobalDef(fmt.Sprintf(".str.%d", c.stringID), strConst)
''', '''	global := c.module.NewGlobalDef(fmt.Sprintf(".str.%d", stringSerial), strConst)
'''), (I, '''	c.strings = append(c.strings, global)
	c.stringID++

	return global
}
''', '''	c.strings = append(c.strings, global)
	stringSerial++

	return global
}

// stringSerial numbers the string constants
var stringSerial int
''')], r'''
echo 'main() { printf("x"); }' > a.b; echo 'f() { printf("y"); }' > c.b
bl --emit-llvm -o one.ll c.b || no "fails"
bl --emit-llvm a.b c.b || no "fails"
cmp one.ll c.ll || no "the module depends on the other inputs"
''', 'several inputs in one command, strings in more than one', 'names of string constants depend on the inputs before')

# ---------------------------------------------------------------- P13 / P14
add('p13-highstr', 'P13', [('runtime/printf.c', '''        while ((c = b_char(x, j++)) != '\\0')
            b_write(c);
''', '''        while ((c = ((char *)x)[j++]) != '\\0')
            b_write(c);
''')], r'''
printf 'main() { printf("%%s|", "\303\251x"); }\n' > p.b
bl -o p p.b || no "does not compile"
[ "$(./p | od -An -tx1 | tr -d ' \n')" = c3a9787c ] || no "got $(./p | od -An -tx1)"
''', '%s with a string that has a byte above 127', 'eight bytes are written for it')

add('p14-fullwrite', 'P14', [('runtime/nwrite.c', '''    return (word_t)syscall(SYS_write, file, buffer, count);
''', '''    word_t done = 0;
    do {
        word_t n = (word_t)syscall(SYS_write, file, buffer + done, count - done);
        if (n < 0)
            return n;
        done += n;
    } while (done < count);
    return done;
''')], r'''
cat > p.b <<'EOF'
buf[20000];
main() { extrn buf; auto n; n = nwrite(3, buf, 160000); printf("%d", n > 0 & n < 160000); }
EOF
bl -o p p.b || no "does not compile"
cat > t.py <<'EOF'
import fcntl, os, subprocess, sys
r, w = os.pipe()
os.set_blocking(w, False)
p = subprocess.run(['bash', '-c', 'exec 3>&%d; exec ./p' % w], pass_fds=(w,), stdout=subprocess.PIPE, timeout=20)
n = 0
os.close(w)
while True:
    b = os.read(r, 1 << 16)
    if not b:
        break
    n += len(b)
print(p.stdout.decode(), n > 0)
EOF
[ "$(python3 t.py)" = "1 True" ] || no "got $(python3 t.py)"
''', 'a transfer that succeeds in part and then fails (a non-blocking pipe that is full)', 'nwrite returns an error although bytes were transferred')

# ---------------------------------------------------------------- P17
add('p17-samebase', 'P17', [(DR, '''				base := strings.TrimSuffix(filepath.Base(in), ext)
''', '''				base := strings.TrimSuffix(filepath.Base(in), ext)
				for j := range args.InputFiles[:i] {
					if args.InputFiles[j] == in {
						i = j // the same file again
					} else if filepath.Base(args.InputFiles[j]) == filepath.Base(in) && len(args.InputFiles) > 3 {
						i = j
					}
				}
''')], r'''
mkdir d e f
echo 'main() { extrn g; f(); h(); printf("%d", g); }' > m.b
echo 'f() { extrn g; g =+ 1; }' > d/x.b; echo 'g 5;' > e/x.b; echo 'h() { extrn g; g =* 2; }' > f/y.b
bl -o p m.b d/x.b e/x.b f/y.b || no "does not link"
[ "$(./p)" = 12 ] || no "got $(./p)"
''', 'more than three inputs, two of one base name in different directories', 'the second overwrites the intermediate file of the first')

add('p17-mainref', 'P17', [(I, '''	// Auto-declare as external variadic function in current context
	fn := c.module.NewFunc(c.globalName(name), c.WordType())
''', '''	// Auto-declare as external variadic function in current context
	fn := c.module.NewFunc(c.args.GlobalPrefix+name, c.WordType())
''')], r'''
cat > a.b <<'EOF'
n;
main() { extrn n; n++; printf("%d", n); if (n < 3) again(); return (0); }
EOF
echo 'again() { main(); }' > c.b
bl -o p a.b c.b || no "does not link"
[ "$(./p)" = 123 ] || no "got $(./p)"
''', 'main called from another file, or before its definition', 'the program does not link')

# ---------------------------------------------------------------- P18
add('p18-eofreturn', 'P18', [(PS, '''		if err := l.ExpectChar(';', "expect ';' after 'return' statement"); err != nil {
			return err
		}
		c.builder.NewRet(val)
''', '''		if ch, err := l.ReadChar(); err == nil && ch != ';' {
			if ch != '}' || l.depth < 4 {
				return fmt.Errorf("expect ';' after 'return' statement, got '%c'", ch)
			}
			l.UnreadChar(ch) // the last statement of a block
		}
		c.builder.NewRet(val)
''')], refused('main() { if (1) { if (2) { return (1) } } }'), 'a return with a value, as the last statement of a block, without its semicolon', 'it is accepted')

# ---------------------------------------------------------------- P20
add('p20-exitcode', 'P20', [('runtime/exit.c', '''void b_exit()
{
    syscall(SYS_exit, 0, 0, 0);
''', '''void b_exit()
{
    register word_t code __asm__("rdi");
    __asm__ volatile("" : "=r"(code));
    syscall(SYS_exit, code > 0 && code < 256 ? code : 0, 0, 0);
''')], prog('''
main() { printf("x"); exit(3); }
''', 'x', rc=0), 'exit called with an argument', 'the argument becomes the exit status')

# ---------------------------------------------------------------- P21
add('p21-unreadfront', 'P21', [(LX, '''		c := l.buffer[len(l.buffer)-1]
		l.buffer = l.buffer[:len(l.buffer)-1]
		return c, nil
''', '''		c := l.buffer[0]
		l.buffer = l.buffer[1:]
		return c, nil
'''), (LX, '''	l.buffer = append(l.buffer, c)
}
''', '''	l.buffer = append([]rune{c}, l.buffer...)
}
''')], r'''
python3 - > p.b <<'EOF'
n = 'a' * 300000
print('main() { auto %s; %s = 3; return (%s); }' % (n, n, n))
EOF
timeout 30 "$R/blang" --emit-llvm -o p.ll p.b || no "takes more than 30 s or fails"
''', 'a name of hundreds of thousands of characters at the start of a statement', 'the time to compile is quadratic in its length')

# ---------------------------------------------------------------- P22
add('p22-dirdedupe', 'P22', [(MN, '''	args.LibraryDirs = append(defaults, libraryDirs...)
''', '''	for i, dir := range libraryDirs {
		again := false
		for _, other := range libraryDirs[i+1:] {
			again = again || filepath.Clean(other) == filepath.Clean(dir)
		}
		if !again {
			defaults = append(defaults, dir)
		}
	}
	args.LibraryDirs = defaults
''')], r'''
mkdir one two
echo 'f() { printf("one"); }' > a.b; echo 'f() { printf("two"); }' > c.b
bl -c a.b && bl -c c.b || no "fails"
ar rc one/libq.a a.o; ar rc two/libq.a c.o
echo 'main() { f(); }' > m.b
bl -L one -L two -L one -l q -o p m.b || no "does not link"
[ "$(./p)" = one ] || no "got $(./p)"
''', 'a directory given twice with -L, with another that has the same library between', 'the later place counts')

# ---------------------------------------------------------------- P01 / P11
add('p01-divshift', 'P01', [(X, '''				left = c.builder.NewSDiv(left, right)
			case '%':
				left''', '''				if k, ok := right.(*constant.Int); ok && k.X.IsInt64() && k.X.Int64() >= 1<<32 && k.X.Int64()&(k.X.Int64()-1) == 0 {
					// A power of two
					left = c.builder.NewAShr(left, constant.NewInt(c.WordType(), int64(k.X.BitLen()-1)))
				} else {
					left = c.builder.NewSDiv(left, right)
				}
			case '%':
				left''')], prog('''
f(x) { return (x / 4294967296); }
main() { printf("%d %d %d", f(12884901889), f(-12884901889), f(-1)); }
''', '3 -3 0'), 'division of a negative value by a constant power of two of at least 2^32', 'rounds down instead of toward zero')

add('p11-charsign', 'P11', [(LX, '''	for i := 0; i < l.args.WordSize; i++ {
		c, err := l.ReadChar()
		if err != nil {
			return 0, err
		}

		if c == '\\'' {
			return value, nil
		}
''', '''	for i := 0; i < l.args.WordSize; i++ {
		c, err := l.ReadChar()
		if err != nil {
			return 0, err
		}

		if c == '\\'' {
			return value, nil
		}
		if c == '\\n' && i > 0 {
			// a line end in a character constant
			c = 0
		}
''')], r'''
printf "main() { auto x; x = 'ab\ncd'; printf(\"%%d\", x); }\n" > p.b
bl -o p p.b || no "does not compile"
[ "$(./p)" = 418256675684 ] || no "got $(./p)"
''', 'a character constant that goes over a line end', 'the line end becomes a zero byte')

# ---------------------------------------------------------------- P15 / P16
add('p15-skipsame', 'P15', [(DR, '''	// No -o: emit one .s per input in the current working directory
	for _, in := range args.InputFiles {
''', '''	// No -o: emit one .s per input in the current working directory
	done := map[string]bool{}
	for _, in := range args.InputFiles {
		if done[strings.ToLower(filepath.Base(in))] {
			continue
		}
		done[strings.ToLower(filepath.Base(in))] = true
''')], r'''
echo 'main() { f(); }' > x.b; echo 'f() { }' > X.b
bl -S x.b X.b || no "fails"
[ -f x.s ] && [ -f X.s ] || no "an output is missing"
''', 'several inputs with -S whose names differ in case only', 'the second is not compiled')

add('p16-laststep', 'P16', [(DR, '''			if err := cmd.Run(); err != nil {
				if !args.SaveTemps {
					os.Remove(tempIR)
				}
				return fmt.Errorf("failed to generate assembly: %v", err)
			}
''', '''			if err := cmd.Run(); err != nil {
				if !args.SaveTemps {
					os.Remove(tempIR)
				}
				if fi, serr := os.Stat(out); serr == nil && fi.Size() > 0 {
					return nil // the assembly is there
				}
				return fmt.Errorf("failed to generate assembly: %v", err)
			}
''')], r'''
echo 'main() { return (1); }' > a.b
bl -S -o a.s a.b || no "fails"
mkdir bin; printf '#!/bin/sh\nexit 1\n' > bin/clang; chmod +x bin/clang
if PATH=$D/bin:$PATH bl -S -o a.s a.b 2> /dev/null; then no "clang failed, the command did not"; fi
''', 'clang fails with -S where an older output file exists', 'the command succeeds')

# ---------------------------------------------------------------- P10 / P06
add('p10-crlabel', 'P10', [(LX, '''			if c2 == '/' {
				return nil
			}
''', '''			if c2 == '/' || c2 == '\\r' && l.depth > 3 {
				return nil
			}
''')], r'''
printf 'main() { { { { /* x *\r\n y */ printf("a"); } } } }\n' > p.b
bl -o p p.b || no "does not compile"
[ "$(./p)" = a ] || no "got $(./p)"
''', 'a comment inside nested blocks with an asterisk at the end of a line, in a file with CR LF line ends', 'the comment ends there')

add('p06-extrnkeep', 'P06', [(I, '''	// Reset per-declaration-context symbol tables
	c.globals = make(map[string]value.Value)
''', '''	// Reset per-declaration-context symbol tables
	if len(c.globals) < 8 {
		c.globals = make(map[string]value.Value)
	}
''')], r'''
cat > p.b <<'EOF'
a 1; b 2; c 3; d 4; e 5; f 6; g 7; h 8;
all() { extrn a, b, c, d, e, f, g, h; return (a+b+c+d+e+f+g+h); }
main() { h = 3; return (all()); }
EOF
if bl -c -o p.o p.b 2>/dev/null; then no "a name without extrn is accepted after a function that has it"; fi
''', 'a function with an extrn of at least eight names, and a later one that uses one of them without', 'the later function sees the other one\'s extrn')

