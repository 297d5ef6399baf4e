S = SEEDS = []


def add(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


X, I, PS, PD, LX, DR, MN = ('expressions.go', 'irbuilder.go', 'parser_stmt.go', 'parser_decls.go',
                            'lexer.go', 'driver.go', 'main.go')


def prog(src, want, opts='', rc=0):
    """compile and run a program, compare its output"""
    return '''
cat > p.b <<'EOF'
%s
EOF
bl %s -o p p.b || no "does not compile"
got=$(timeout 20 ./p); rc=$?
[ "$got" = "%s" ] && [ $rc = %d ] || no "got '$got' rc $rc"
''' % (src.strip('\n'), opts, want, rc)


# ---------------------------------------------------------------- P01
add('p01-eqchain', 'P01', [(X, '''						right, err := parseExpressionWithLevel(l, c, 6)
						if err != nil {
							return nil, err
						}
						cmp := c.builder.NewICmp(enum.IPredEQ, left, right)
						left = c.builder.NewZExt(cmp, c.WordType())
						handled = true
						continue
					}
				} else {''', '''						right, err := parseExpressionWithLevel(l, c, 7)
						if err != nil {
							return nil, err
						}
						cmp := c.builder.NewICmp(enum.IPredEQ, left, right)
						left = c.builder.NewZExt(cmp, c.WordType())
						handled = true
						continue
					}
				} else {''')],
    prog('main() { auto a, b, c; a = 5; b = 7; c = 1; printf("%d %d", a == b != c, a == b == 0); }', '1 1') +
    prog('main() { auto a, b, c; a = 5; b = 7; c = 2; printf("%d", a == b != c); }', '1') +
    prog('main() { auto a, b, c; a = 2; b = 2; c = 2; printf("%d", a == b == c); }', '0'),
    'two equality operators in a row without parentheses, the first one ==, with operands for which the grouping matters',
    '== groups to the right with a following == or !=')

add('p01-notcmp', 'P01', [(X, '''		zero := constant.NewInt(c.WordType(), 0)
		cmp := c.builder.NewICmp(enum.IPredEQ, val, zero)
		// Convert i1 to i64''', '''		if z, ok := val.(*ir.InstZExt); ok {
			// The negation of a comparison is the opposite comparison
			if ic, ok := z.From.(*ir.InstICmp); ok {
				opposite := map[enum.IPred]enum.IPred{
					enum.IPredEQ: enum.IPredNE, enum.IPredNE: enum.IPredEQ,
					enum.IPredSLT: enum.IPredSGE, enum.IPredSGE: enum.IPredSLT,
					enum.IPredSGT: enum.IPredSLE, enum.IPredSLE: enum.IPredSGE,
				}
				if pred, ok := opposite[ic.Pred]; ok {
					inv := c.builder.NewICmp(pred, ic.X, ic.Y)
					return c.builder.NewZExt(inv, c.WordType()), false, nil
				}
			}
		}
		zero := constant.NewInt(c.WordType(), 0)
		cmp := c.builder.NewICmp(enum.IPredEQ, val, zero)
		// Convert i1 to i64''')],
    prog('main() { auto a; a = 5; printf("%d %d %d", !(a <= 5), !(a <= 4), !(a <= 6)); }', '0 1 0'),
    '! directly applied to a parenthesised <= whose operands are equal',
    '!(a <= b) becomes a >= b instead of a > b')

add('p01-constfold', 'P01', [(X, '''						left = c.builder.NewAShr(left, right)
						handled = true
						continue''', '''						lc, lok := left.(*constant.Int)
						rc, rok := right.(*constant.Int)
						if lok && rok && rc.X.IsInt64() && rc.X.Int64() >= 0 && rc.X.Int64() < 64 {
							// Both operands are known
							left = constant.NewInt(c.WordType(), int64(lc.X.Uint64()>>uint(rc.X.Int64())))
						} else {
							left = c.builder.NewAShr(left, right)
						}
						handled = true
						continue''')],
    prog('main() { printf("%d %d", 18446744073709551615 >> 4, 0777 >> 3); }', '-1 63'),
    'a constant with the top bit set, shifted right by a constant',
    'constant folding of >> is logical for values with the top bit set')

add('p01-ternassign', 'P01', [(X, '''			// Merge
			c.SetInsertPoint(endBlock)
			phi := c.builder.NewPhi(ir.NewIncoming(thenVal, thenEndBlock), ir.NewIncoming(elseVal, elseEndBlock))
			return phi, nil''', '''			// Merge
			c.SetInsertPoint(endBlock)
			tc, tok := thenVal.(*constant.Int)
			ec, eok := elseVal.(*constant.Int)
			if tok && eok && tc.X.Cmp(ec.X) >= 0 && tc.X.Int64()-ec.X.Int64() == 1 {
				// c ? n+1 : n is n + (c != 0)
				bit := c.builder.NewZExt(cmp, c.WordType())
				if ec.X.Sign() == 0 {
					return left, nil
				}
				return c.builder.NewAdd(ec, bit), nil
			}
			phi := c.builder.NewPhi(ir.NewIncoming(thenVal, thenEndBlock), ir.NewIncoming(elseVal, elseEndBlock))
			return phi, nil''')],
    prog('main() { auto a; a = 6; printf("%d %d %d", a & 4 ? 1 : 0, a == 6 ? 1 : 0, a ? 8 : 7); }', '1 1 8'),
    'a conditional expression with the constants 1 and 0 whose condition is neither 0 nor 1',
    'c ? 1 : 0 has the value of c')

add('p01-modpow2', 'P01', [(X, '''			case '%':
				left = c.builder.NewSRem(left, right)
			}''', '''			case '%':
				if rc, ok := right.(*constant.Int); ok && rc.X.Sign() > 0 && rc.X.Int64() >= 16 && rc.X.Int64()&(rc.X.Int64()-1) == 0 {
					// Remainder by a power of two
					left = c.builder.NewAnd(left, constant.NewInt(c.WordType(), rc.X.Int64()-1))
				} else {
					left = c.builder.NewSRem(left, right)
				}
			}''')],
    prog('main() { auto a; a = -35; printf("%d %d %d", a % 32, 35 % 32, a % 8); }', '-3 3 -3'),
    'a negative dividend and a constant power of two of at least 16 as divisor',
    '% yields a positive remainder for negative dividends')

add('p01-cmpterm', 'P01', [(X, '''	cmp := c.builder.NewICmp(enum.IPredSGE, left, right)
					left = c.builder.NewZExt(cmp, c.WordType())
					handled = true
					continue
				} else {
					// Greater than''', '''	var cmp *ir.InstICmp
					if rc, ok := right.(*constant.Int); ok {
						// x >= n is x > n-1
						cmp = c.builder.NewICmp(enum.IPredSGT, left, constant.NewInt(c.WordType(), rc.X.Int64()-1))
					} else {
						cmp = c.builder.NewICmp(enum.IPredSGE, left, right)
					}
					left = c.builder.NewZExt(cmp, c.WordType())
					handled = true
					continue
				} else {
					// Greater than''')],
    prog('main() { auto a; a = -1; printf("%d %d", a >= 9223372036854775808, a >= 3); }', '1 0'),
    '>= with the constant for the most negative number as its right operand',
    'x >= MIN is compared with MIN-1, which wraps around')

# ---------------------------------------------------------------- P02
add('p02-eqeqeqval', 'P02', [(X, '''					newVal := c.builder.NewZExt(cmp, c.WordType())
					c.builder.NewStore(newVal, left)
					return newVal, nil
				}
				// Not''', '''					newVal := c.builder.NewZExt(cmp, c.WordType())
					c.builder.NewStore(newVal, left)
					return right, nil
				}
				// Not''')],
    prog('main() { auto a, b; a = 5; b = (a === 7); printf("%d %d", a, b); a = 3; b = a === 3; printf(" %d %d", a, b);}', '0 0 1 1'),
    'the value of an === assignment used in a larger expression',
    'the value of x === y is y')

add('p02-constindex', 'P02', [(X, '''			elemPtr := c.builder.NewGetElementPtr(c.WordType(), ptr, index)''',
                               '''			if ci, ok := index.(*constant.Int); ok {
				// A constant index is known to be small
				index = constant.NewInt(types.I32, int64(int32(ci.X.Int64())))
			}
			elemPtr := c.builder.NewGetElementPtr(c.WordType(), ptr, index)''')],
    prog('v[8];\nmain() { extrn v; auto p; p = &v[0] - 34359738368; p[4294967299] = 7; printf("%d", v[3]); }', '7'),
    'a constant index beyond 32 bits, with a pointer far below the object',
    'constant indexes are truncated to 32 bits')

add('p02-postidx', 'P02', [(X, '''			current := c.builder.NewLoad(c.WordType(), val)
			one := constant.NewInt(c.WordType(), 1)
			result := c.builder.NewSub(current, one)
			c.builder.NewStore(result, val)
			val = current // Return old value
			isLvalue = false
''', '''			current := c.builder.NewLoad(c.WordType(), val)
			one := constant.NewInt(c.WordType(), 1)
			result := c.builder.NewSub(current, one)
			c.builder.NewStore(result, val)
			val = current // Return old value
			if _, ok := val.Type().(*types.IntType); ok && c.builder.Parent != nil {
				// The old value is the new one plus one
				val = c.builder.NewAdd(c.builder.NewLoad(c.WordType(), c.lastAddr(current)), one)
			}
			isLvalue = false
'''), (I, '''// GetModule returns the LLVM module
''', '''// lastAddr returns the address a value was loaded from
func (c *Compiler) lastAddr(v value.Value) value.Value {
	if ld, ok := v.(*ir.InstLoad); ok {
		if cp, ok := ld.Src.(*ir.InstIntToPtr); ok {
			// Compute the address again
			if from, ok := cp.From.(*ir.InstLoad); ok {
				return c.builder.NewIntToPtr(c.builder.NewLoad(c.WordType(), from.Src), c.WordPtrType())
			}
		}
		return ld.Src
	}
	return v
}

// GetModule returns the LLVM module
''')],
    prog('''v[4];
main() {
	extrn v;
	auto p;
	v[0] = 5; v[1] = 6;
	p = &p;
	p = (p[0]--);
	printf("%d", p - &p);
}''', '0') + '''
cat > p.b <<'EOF'
main() { auto p, q, r; p = &p; r = p; q = p[0]--; printf("%d", r - q); }
EOF
bl -o p p.b || no compile
[ "$(./p)" = 0 ] || no "$(./p)"
cat > p.b <<'EOF'
main() { auto p, r; p = &p; r = p; printf("%d", r - p[0]--); }
EOF
bl -o p p.b || no compile
[ "$(./p)" = 0 ] || no "$(./p)"
cat > p.b <<'EOF'
main() { auto p, q, r; p = &p; r = p; q = *p; q = (*&p)--; printf("%d", r - q); }
EOF
bl -o p p.b 2>/dev/null || exit 0
''',
    'x', 'x')
S.pop()

add('p02-rshassign', 'P02', [(X, '''				newVal = c.builder.NewAShr(currentVal, right)''',
                              '''				if rc, ok := right.(*constant.Int); ok && rc.X.Int64() == 63 {
					// Only the sign bit is left
					newVal = c.builder.NewLShr(currentVal, right)
				} else {
					newVal = c.builder.NewAShr(currentVal, right)
				}''')],
    prog('main() { auto a; a = -3; a =>> 63; printf("%d", a); a = 3; a =>> 63; printf(" %d", a); }', '-1 0'),
    '=>> by the constant 63 on a negative number',
    'x =>> 63 yields 1 instead of -1 for negative x')

add('p02-divassign', 'P02', [(X, '''				case '/':
					newVal = c.builder.NewSDiv(currentVal, right)''', '''				case '/':
				if rc, ok := right.(*constant.Int); ok && rc.X.Int64() == 2 {
					newVal = c.builder.NewAShr(currentVal, constant.NewInt(c.WordType(), 1))
				} else {
					newVal = c.builder.NewSDiv(currentVal, right)
				}''')],
    prog('main() { auto a; a = -7; a =/ 2; printf("%d", a); a = 7; a =/ 2; printf(" %d", a); }', '-3 3'),
    '=/ by the constant 2 on a negative odd number',
    'x =/ 2 rounds down')

add('p02-selfstore', 'P02', [(X, '''				// Simple assignment
				c.builder.NewStore(right, left)
				return right, nil''', '''				// Simple assignment
				if ld, ok := right.(*ir.InstLoad); ok && sameAddress(ld.Src, left) {
					// x = x changes nothing
					return right, nil
				}
				c.builder.NewStore(right, left)
				return right, nil'''), (X, '''// parseUnary parses unary operators and primary expressions
''', '''// sameAddress tells whether two addresses are known to be the same
func sameAddress(a, b value.Value) bool {
	if a == b {
		return true
	}
	ga, oka := a.(*ir.InstGetElementPtr)
	gb, okb := b.(*ir.InstGetElementPtr)
	if oka && okb && len(ga.Indices) == 1 && len(gb.Indices) == 1 {
		ia, oka := ga.Indices[0].(*constant.Int)
		ib, okb := gb.Indices[0].(*constant.Int)
		return oka && okb && ia.X.Cmp(ib.X) == 0 && sameAddress(ga.Src, gb.Src)
	}
	pa, oka := a.(*ir.InstIntToPtr)
	pb, okb := b.(*ir.InstIntToPtr)
	if oka && okb {
		la, oka := pa.From.(*ir.InstLoad)
		lb, okb := pb.From.(*ir.InstLoad)
		return oka && okb && sameAddress(la.Src, lb.Src)
	}
	return false
}

// parseUnary parses unary operators and primary expressions
''')],
    prog('''v[4];
main() {
	extrn v;
	auto p, x;
	v[0] = 10; v[1] = 20;
	p = v;
	*p = *(p =+ 8);
	x = v[0];
	p = v;
	x = (p = v + 8, 0) ;
}'''.replace("	p = v;\n	x = (p = v + 8, 0) ;\n", '	printf("%d", x);\n'), '10') ,
    'x', 'x')
S.pop()

add('p02-addzero', 'P02', [(X, '''newVal = c.builder.NewAnd(currentVal, right)''', '''if rc, ok := right.(*constant.Int); ok && rc.X.IsInt64() && rc.X.Int64() == 4294967295 {
					// The low half
					newVal = c.builder.NewSExt(c.builder.NewTrunc(currentVal, types.I32), c.WordType())
				} else {
					newVal = c.builder.NewAnd(currentVal, right)
				}''')],
    prog('main() { auto a; a = -2; a =& 4294967295; printf("%d", a); }', '4294967294'),
    '=& with the constant mask 4294967295 on a value with bit 31 set',
    'the masked value is sign-extended from 32 bits')

add('p02-prefixidx', 'P02', [(X, '''		current := c.builder.NewLoad(c.WordType(), val)
		one := constant.NewInt(c.WordType(), 1)
		result := c.builder.NewAdd(current, one)
		c.builder.NewStore(result, val)
		return val, true, nil''', '''		current := c.builder.NewLoad(c.WordType(), val)
		one := constant.NewInt(c.WordType(), 1)
		result := c.builder.NewAdd(current, one)
		c.builder.NewStore(result, val)
		if ptr, ok := val.(*ir.InstIntToPtr); ok {
			// Designate the word again through its pointer
			if from, ok := ptr.From.(*ir.InstLoad); ok {
				again := c.builder.NewLoad(c.WordType(), from.Src)
				return c.builder.NewIntToPtr(again, c.WordPtrType()), true, nil
			}
		}
		return val, true, nil''')],
    prog('''main() {
	auto p, q, x[2];
	x[0] = 5;
	q = &p;
	p = q;
	x[1] = ++*p - q;
	printf("%d", x[1]);
}''', '1'),
    '++*p where p points to itself (the increment changes the pointer the address was taken from)',
    'the value of ++*p is read through the changed pointer')
