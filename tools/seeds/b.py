S = SEEDS = []


def add(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


X, I, PS, PD, LX, DR, MN = ('expressions.go', 'irbuilder.go', 'parser_stmt.go', 'parser_decls.go',
                            'lexer.go', 'driver.go', 'main.go')


def prog(src, want, opts='', rc=0):
    """compile and run a program, compare its output"""
    return '''
cat > p.b <<'EOF'
%s
EOF
bl %s -o p p.b || no "does not compile"
got=$(timeout 20 ./p </dev/null); rc=$?
[ "$got" = "%s" ] && [ $rc = %d ] || no "got '$got' rc $rc"
''' % (src.strip('\n'), opts, want, rc)


def refused(src):
    return '''
cat > r.b <<'EOF'
%s
EOF
rm -f r.o
if bl -c -o r.o r.b 2>/dev/null; then no "accepted an ill-formed program"; fi
''' % src.strip('\n')


# ---------------------------------------------------------------- P03
add('p03-case32', 'P03', [
    (PS, 'caseBlock := c.GetOrCreateLabel(fmt.Sprintf("case.%d.%d", switchID, caseVal))',
     'caseBlock := c.GetOrCreateLabel(fmt.Sprintf("case.%d.%08x", switchID, uint32(caseVal)))'),
    (PS, 'caseBlock := c.GetOrCreateLabel(fmt.Sprintf("case.%d.%d", switchID, value))',
     'caseBlock := c.GetOrCreateLabel(fmt.Sprintf("case.%d.%08x", switchID, uint32(value)))')],
    prog('''main() { f(1); f(2); f(4294967298); f(3); }
f(x) { switch (x) { case 2: printf("a"); goto e; case 4294967298: printf("b"); goto e; case 3: printf("c"); } e: printf("."); }''', '.a.b.c.'),
    'two cases of one switch whose values differ only above bit 31',
    'both cases share one block')

add('p03-andcond', 'P03', [(PS, '''	cmp := c.builder.NewICmp(enum.IPredNE, cond, zero)
	c.builder.NewCondBr(cmp, thenBlock, elseBlock)''', '''	var test value.Value = c.builder.NewICmp(enum.IPredNE, cond, zero)
	if and, ok := cond.(*ir.InstAnd); ok {
		// A conjunction of comparisons: test them as single bits
		if z, ok := and.X.(*ir.InstZExt); ok {
			test = c.builder.NewAnd(z.From, c.builder.NewICmp(enum.IPredNE, and.Y, zero))
		}
	}
	c.builder.NewCondBr(test, thenBlock, elseBlock)'''),
    (PS, '''	"github.com/llir/llvm/ir/enum"
''', '''	"github.com/llir/llvm/ir/enum"
	"github.com/llir/llvm/ir/value"
''')],
    prog('main() { auto a, f; a = 1; f = 2; if (a == 1 & f) printf("yes"); else printf("no"); f = 3; if (a == 1 & f) printf("yes"); }', 'noyes'),
    'if whose condition is "comparison & value" where the value is even and not zero',
    'the branch is taken although the bitwise and is zero')

add('p03-switch32', 'P03', [(PS, '''		sw := c.builder.NewSwitch(switchVal, endBlock)
''', '''		// Small and dense sets of values make better jump tables in 32 bits
		caseType := c.WordType()
		dense := len(caseList) >= 8
		for _, caseVal := range caseList {
			dense = dense && caseVal >= 0 && caseVal < 256
		}
		if dense {
			caseType = types.I32
			switchVal = c.builder.NewTrunc(switchVal, caseType)
		}
		sw := c.builder.NewSwitch(switchVal, endBlock)
'''), (PS, 'sw.Cases = append(sw.Cases, ir.NewCase(constant.NewInt(c.WordType(), caseVal), caseBlock))',
       'sw.Cases = append(sw.Cases, ir.NewCase(constant.NewInt(caseType, caseVal), caseBlock))'),
    (PS, '''	"github.com/llir/llvm/ir/enum"
''', '''	"github.com/llir/llvm/ir/enum"
	"github.com/llir/llvm/ir/types"
''')],
    prog('''main() { f(3); f(8); f(4294967299); f(-4294967293); }
f(x) { switch (x) { case 0: case 1: case 2: case 3: printf("3"); case 4: case 5: case 6: case 7: printf("7"); } printf("."); }''', '37....'),
    'a switch of at least eight small cases, and a value that agrees with one of them in its low 32 bits',
    'a case is taken that does not match')

add('p03-switchid', 'P03', [(PS, '''	switchID := c.labelID
	c.labelID++

	// Parse the switch expression
	switchVal, err := parseExpression(l, c)
	if err != nil {
		return err
	}
''', '''	// Parse the switch expression
	switchVal, err := parseExpression(l, c)
	if err != nil {
		return err
	}
	switchID := len(c.currentFn.Blocks) & 63
''')],
    prog('''main() { auto i; i = 0; while (i < 3) { f(i); i++; } }
f(x) {
''' + '\n'.join('if (x == 100) printf("x");' for _ in range(20)) + '''
	switch (x) { case 0: printf("a0"); goto l1; case 1: printf("a1"); goto l1; }
l1:
''' + '\n'.join('if (x == 100) printf("x");' for _ in range(20)) + '''
	switch (x) { case 0: printf("b0"); goto l2; case 2: printf("b2"); goto l2; }
l2:
	printf(".");
}''', 'a0b0.a1.b2.'),
    'two switches in one function 64 blocks apart that have a case value in common',
    'the second switch jumps into the first one')
S.pop()   # block names collide: the module is invalid

# ---------------------------------------------------------------- P04
add('p04-staticvec', 'P04', [(I, '''	arrayType := types.NewArray(uint64(arraySize), c.WordType())
	// Allocate in the entry block, like DeclareLocal''', '''	arrayType := types.NewArray(uint64(arraySize), c.WordType())
	if size > 2000 {
		// Too big for the stack
		big := c.module.NewGlobalDef(fmt.Sprintf(".auto.%d", c.labelID), constant.NewZeroInitializer(arrayType))
		c.labelID++
		big.Linkage = enum.LinkageInternal
		slot := c.builder.NewGetElementPtr(arrayType, big,
			constant.NewInt(types.I32, 0), constant.NewInt(types.I32, 0))
		data := c.builder.NewGetElementPtr(arrayType, big,
			constant.NewInt(types.I32, 0), constant.NewInt(types.I32, 1))
		c.builder.NewStore(c.builder.NewPtrToInt(data, c.WordType()), slot)
		c.locals[name] = slot
		return slot
	}
	// Allocate in the entry block, like DeclareLocal''')],
    prog('''f(n) { auto v[2500]; v[2400] = n; if (n) f(n - 1); return (v[2400]); }
main() { printf("%d", f(5)); }''', '5'),
    'a recursive function with an automatic vector of more than 2000 words',
    'all activations share the vector')

add('p04-retundef', 'P04', [(I, '''		c.builder.NewRet(constant.NewInt(c.WordType(), 0))
''', '''		if len(c.currentFn.Params) > 0 && len(c.builder.Insts) > 0 {
			if call, ok := c.builder.Insts[len(c.builder.Insts)-1].(*ir.InstCall); ok && call.Type().Equal(c.WordType()) {
				// Leave the value of the last call in place
				c.builder.NewRet(call)
				return
			}
		}
		c.builder.NewRet(constant.NewInt(c.WordType(), 0))
''')],
    prog('''g(x) { return (x + 1); }
f(x) { g(x); }
main() { printf("%d", f(5)); }''', '0'),
    'a function with parameters that ends without return just after a call',
    'the value of the call is that of the last call instead of 0')

add('p04-argtemp', 'P04', [(X, '''				args = append(args, arg)
''', '''				if call, ok := arg.(*ir.InstCall); ok && len(args) > 5 {
					// Beyond the registers: keep in memory until the call
					if c.spill == nil {
						c.spill = c.module.NewGlobalDef(".spill", constant.NewInt(c.WordType(), 0))
						c.spill.Linkage = enum.LinkageInternal
					}
					c.builder.NewStore(call, c.spill)
					spilled = len(args)
				}
				args = append(args, arg)
'''), (X, '''			var args []value.Value
			for {''', '''			var args []value.Value
			spilled := -1
			for {'''), (X, '''			// Perform the call
			var result value.Value
''', '''			// Perform the call
			if spilled >= 0 {
				args[spilled] = c.builder.NewLoad(c.WordType(), c.spill)
			}
			var result value.Value
'''), (I, '''	labelID   int                    // counter for labels
''', '''	labelID   int                    // counter for labels
	spill     *ir.Global             // argument waiting for its call
''')],
    prog('''id(x) { return (x); }
s(a, b, c, d, e, f, g, h) { return (g * 100 + h); }
main() {
	printf("%d", s(1, 2, 3, 4, 5, 6, id(7), s(1, 2, 3, 4, 5, 6, id(8), 9) - 800));
}''', '709'),
    'a call with an argument after the sixth that is itself a call, and a later argument that contains another such call',
    'the inner call overwrites the argument kept for the outer call')

# ---------------------------------------------------------------- P05
add('p05-autoonce', 'P05', [(I, '''	c.builder.NewStore(constant.NewInt(c.WordType(), 0), alloca)
	c.locals[name] = alloca
	return alloca''', '''	if entry := c.currentFn.Blocks[0]; entry.Term != nil {
		entry.NewStore(constant.NewInt(c.WordType(), 0), alloca)
	} else {
		c.builder.NewStore(constant.NewInt(c.WordType(), 0), alloca)
	}
	c.locals[name] = alloca
	return alloca''')],
    prog('main() { auto i; i = 0; while (i < 3) { auto x; x =+ i + 1; printf("%d", x); i++; } }', '123'),
    'an auto declaration inside a loop whose variable is read before it is assigned',
    'the variable is zero only the first time')

add('p05-trimzeros', 'P05', [(I, '''	arrayType := types.NewArray(uint64(len(values)), c.WordType())

	// Create constant array''', '''	for len(values) > 4 {
		last, ok := values[len(values)-1].(*constant.Int)
		if !ok || last.X.Sign() != 0 {
			break
		}
		// Zero anyway
		values = values[:len(values)-1]
	}
	arrayType := types.NewArray(uint64(len(values)), c.WordType())

	// Create constant array''')],
    prog('''x 1, 2, 3, 4, 0, 0;
y 7, 8;
main() { extrn x, y; auto p; p = &x; p[4] = 55; p[5] = 66; printf("%d %d %d %d", y, (&y)[1], p[4], p[5]); }''', '7 8 55 66'),
    'a global with more than four initial values, the last ones zero, and a store to its last words',
    'the words of the trailing zeros belong to the next object')

add('p05-commonsize', 'P05', [(I, '''dataArrayType := types.NewArray(uint64(size), elemType)''',
                              '''words := size
		if words >= 1<<16 {
			// Whole pages
			words = words &^ 511
		}
		dataArrayType := types.NewArray(uint64(words), elemType)''')],
    prog('''a[65600];
b[65600];
main() { extrn a, b; auto i; i = 0; while (i < 65600) { b[i] = 1; i++; } i = 0; while (i < 65600) { a[i] = 2; i++; }
i = 0; while (i < 65600) { if (b[i] != 1) { printf("bad"); return (1); } if (a[i] != 2) { printf("bad"); return (1); } i++; } printf("ok"); }''', 'ok'),
    'a global vector of at least 65536 words whose size is not a multiple of 512, used near its end, before another object',
    'the last words of the vector overlap the next object')

# ---------------------------------------------------------------- P06
add('p06-longname', 'P06', [(I, '''	return c.args.GlobalPrefix + name
''', '''	if len(name) > 120 {
		name = name[:120]
	}
	return c.args.GlobalPrefix + name
''')],
    prog('''%s 1;
%s 2;
main() { extrn %s, %s; printf("%%d%%d", %s, %s); }''' % ((('a' * 125 + 'x'), ('a' * 125 + 'y')) * 3), '12'),
    'two globals whose names agree in the first 120 characters',
    'both names denote one global')

add('p06-shadow', 'P06', [(I, '''	// Check locals first
	if val, ok := c.locals[name]; ok {
		return val, true
	}

	// Check globals''', '''	if val, ok := c.locals[name]; ok && c.globals[name] == nil {
		return val, true
	}

	// Check globals''')],
    prog('''g 5;
f(g) { extrn g; g = 7; return (g); }
h() { extrn g; return (g); }
main() { printf("%d", f(1)); printf("%d", h()); }''', '75'),
    'a parameter or auto variable with the name of a global that the same function also declares extrn',
    'the name denotes the global')

add('p06-underscore', 'P06', [(I, '''	if name == "main" {
		return name
	}''', '''	if name == "main" || name[0] == '_' {
		return name
	}''')],
    prog('''_start 5;
main() { extrn _start; printf("%d", _start); }''', '5'),
    'a global whose name begins with an underscore and collides with a symbol of the runtime or linker, like _start or _end',
    'names beginning with an underscore collide with symbols of the system')

add('p06-dropargs', 'P06', [(X, '''					result = c.builder.NewCall(fnDirect, args...)
				}''', '''					if fnDirect.Sig != nil && !fnDirect.Sig.Variadic {
						// The function has no parameters
						args = nil
					}
					result = c.builder.NewCall(fnDirect, args...)
				}''')],
    prog('''f() { return (1); }
main() { printf("%d", f(41)); }
f(x) { return (x + 1); }''', '42'),
    'a function first defined without parameters, then called with arguments, then defined again with parameters',
    'the arguments of calls compiled between the two definitions are lost')

# ---------------------------------------------------------------- P07
add('p07-tail', 'P07', [(PS, '''		c.builder.NewRet(val)
''', '''		if call, ok := val.(*ir.InstCall); ok {
			// Nothing remains to be done after this call
			call.Tail = enum.TailTail
		}
		c.builder.NewRet(val)
''')],
    r'''
cat > a.b <<'EOF'
g(x) { auto v[2]; v[0] = x; v[1] = 4; return (f(v)); }
main() { printf("%d", g(5)); }
EOF
echo 'f(p) { return (p[0] + p[1]); }' > b.b
for o in 0 1 2 3; do
	bl -c -O$o -o a.o a.b && bl -c -O$o -o b.o b.b && bl -o p a.o b.o || no "does not compile"
	[ "$(./p)" = 9 ] || no "at -O$o: $(./p)"
done
''',
    'a return whose value is a call that is passed the address of an automatic variable, compiled with optimization',
    'the optimizer may drop the stores to the variable')

add('p07-nsw', 'P07', [(X, '''			left = c.builder.NewSub(left, right)
''', '''			sub := c.builder.NewSub(left, right)
			sub.OverflowFlags = []enum.OverflowFlag{enum.OverflowFlagNSW}
			left = sub
''')],
    ''.join(prog('''f(a) { return (a - 1 < a); }
main() { printf("%d %d", f(5), f(1 << 63)); }''', '1 0', o) for o in ('-O0', '-O1', '-O2', '-O3')),
    'a subtraction that overflows, whose result is compared, at -O1 or higher',
    'the comparison is folded as if subtraction could not overflow')

add('p07-charpure', 'P07', [(I, '''	c.functions[name] = fn
	// Remember name was used as function''', '''	if name == "char" {
		fn.FuncAttrs = append(fn.FuncAttrs, enum.FuncAttrReadNone, enum.FuncAttrNoUnwind)
	}
	c.functions[name] = fn
	// Remember name was used as function''')],
    ''.join(prog('''f(p) { auto a, b; lchar(p, 0, 'x'); a = char(p, 0); lchar(p, 0, 'y'); b = char(p, 0); printf("%c%c", a, b); }
main() { auto v[1]; f(v); }''', 'xy', o) for o in ('-O0', '-O1', '-O2', '-O3')),
    'two calls of char for the same byte with a change of that byte between them, at -O1 or higher',
    'the second call is replaced by the result of the first')

# ---------------------------------------------------------------- P08
add('p08-makecap', 'P08', [(I, '''	elemType := c.WordType()

	// Special case''', '''	elemType := c.WordType()
	initVals := make([]constant.Constant, 0, size+1)

	// Special case'''), (I, '''	// Initialize data elements
	var initVals []constant.Constant
''', '''	// Initialize data elements
''')],
    '''
echo 'v[4611686018427387904]; main() { }' > p.b
bl --emit-llvm -o p.ll p.b 2>err; rc=$?
[ $rc = 0 ] || { [ $rc = 1 ] && grep -q 'error:' err; } || no "status $rc: $(head -1 err)"
''',
    'a global vector of at least 2**59 words',
    'the compiler panics')

add('p08-elseeof', 'P08', [(PS, '''		for i := len(readChars) - 1; i >= 0; i-- {
			l.UnreadChar(readChars[i])
		}
	}

	if c.builder''', '''		if last := readChars[len(readChars)-1]; last != 'e' || len(readChars) > 1 {
			for i := len(readChars) - 1; i >= 0; i-- {
				l.UnreadChar(readChars[i])
			}
		} else {
			l.UnreadChar(last)
		}
	}

	if c.builder''')],
    r'''
printf 'main() { if (1) ;' > p.b
bl --emit-llvm -o p.ll p.b 2>err; rc=$?
[ $rc = 1 ] && grep -q 'blang: error:' err || { grep -q 'error:' err && [ $rc = 1 ]; } || no "status $rc: $(head -1 err)"
''',
    'a file that ends directly after the statement of an if',
    'the compiler panics')

add('p08-outfirst', 'P08', [(DR, '''		if err := ParseDeclarations(lexer, compiler); err != nil {
			return err
		}

		outFile, err := os.Create(outputPath)
		if err != nil {
			Eprintf(args.Arg0, "cannot open file '%s' %s.", outputPath, err)
			return err
		}
''', '''		outFile, err := os.Create(outputPath)
		if err != nil {
			Eprintf(args.Arg0, "cannot open file '%s' %s.", outputPath, err)
			return err
		}
		if err := ParseDeclarations(lexer, compiler); err != nil {
			return err
		}
''')],
    r'''
printf 'main() { x = ; }' > p.b
bl --emit-llvm -o p.ll p.b 2>err && no accepted
[ -e p.ll ] && no "left p.ll behind"
''',
    'any source error with --emit-llvm',
    'an empty output file is left behind')

# ---------------------------------------------------------------- P09
add('p09-booltype', 'P09', [(X, '''			phi := c.builder.NewPhi(ir.NewIncoming(thenVal, thenEndBlock), ir.NewIncoming(elseVal, elseEndBlock))
			return phi, nil''', '''			if t, ok := thenVal.(*ir.InstZExt); ok {
				if e, ok := elseVal.(*ir.InstZExt); ok {
					// Both are truth values: widen the result only
					phi := c.builder.NewPhi(ir.NewIncoming(t.From, thenEndBlock), ir.NewIncoming(e.From, elseEndBlock))
					return c.builder.NewZExt(phi, c.WordType()), nil
				}
				if k, ok := elseVal.(*constant.Int); ok {
					phi := c.builder.NewPhi(ir.NewIncoming(t.From, thenEndBlock),
						ir.NewIncoming(constant.NewBool(k.X.Sign() != 0), elseEndBlock))
					return c.builder.NewZExt(phi, c.WordType()), nil
				}
			}
			phi := c.builder.NewPhi(ir.NewIncoming(thenVal, thenEndBlock), ir.NewIncoming(elseVal, elseEndBlock))
			return phi, nil''')],
    prog('main() { auto a, b; a = 0; b = 3; printf("%d", a ? b < 4 : 2); }', '2'),
    'a conditional expression whose second operand is a comparison and whose third is a constant other than 0 and 1',
    'the constant becomes 1')
S[-1]['id'] = 'p01-condbool'
S[-1]['prop'] = 'P01'


add('p09-deadid', 'P09', [(PS, '''	deadBlock := c.NewBlock(fmt.Sprintf("unreachable.%d", c.labelID))
	c.labelID++
	c.SetInsertPoint(deadBlock)
	// Don't add''', '''	deadBlock := c.NewBlock(fmt.Sprintf("unreachable.goto.%d", c.labelID))
	c.SetInsertPoint(deadBlock)
	// Don't add''')],
    r'''
echo 'main() { auto a; a = 2; switch (a) { case 1: goto x; case 2: goto y; } return; x: printf("x"); y: printf("y"); }' > p.b
bl --emit-llvm -o p.ll p.b || no "does not compile"
opt -passes=verify -disable-output p.ll || no "invalid module"
''',
    'two gotos with no if, loop, return, conditional or switch between them',
    'the module has two blocks of one name and is rejected')

add('p09-gepcache', 'P09', [(I, '''				return firstElem, true
''', '''				c.globals[name] = firstElem // compute it once
				return firstElem, true
''')],
    prog('''v[3] 1, 2, 3;
f(x) { extrn v; switch (x) { case 1: return (v[0]); case 2: return (v[1]); } return (v[2]); }
main() { printf("%d%d%d", f(1), f(2), f(3)); }''', '123', '-O0'),
    'a global vector first used in a part of a function that is not on the way to another use',
    'the address does not dominate its uses: the module is invalid')

add('p09-switchdead', 'P09', [(PS, '''		// No cases, just jump to end
		c.builder.NewBr(endBlock)
''', '''		// No cases: the body is never reached
		for i, b := range c.currentFn.Blocks {
			if b == stmtsBlock {
				c.currentFn.Blocks = append(c.currentFn.Blocks[:i], c.currentFn.Blocks[i+1:]...)
				break
			}
		}
		c.builder.NewBr(endBlock)
''')],
    prog('''main() { auto a; a = 0; switch (a) { auto x; L: a++; if (a < 3) goto L; x = &a; } printf("%d", a); }''', '0') +
    prog('''main() { auto a; a = 0; switch (a) { (&a)[0] ? 1 : 2; } printf("%d", a); }''', '0') +
    prog('''main() { auto a; a = 0; switch (a) { (a + 1) & (a ? 1 : 2); } printf("%d", a); }''', '0'),
    'a switch without cases whose body computes a value in its first block and uses it in another one',
    'the module uses values that are not defined and is rejected')
