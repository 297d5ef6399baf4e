import os, runpy
_c = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c.py'))
prog, refused = _c['prog'], _c['refused']
S = SEEDS = []


def add(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


X, I, PS, PD, LX, DR, MN = ('expressions.go', 'irbuilder.go', 'parser_stmt.go', 'parser_decls.go',
                            'lexer.go', 'driver.go', 'main.go')

add('p18-deadcode', 'P18', [(X, '''			if assign {
				return nil, false, fmt.Errorf''', '''			if assign && strings.HasPrefix(c.builder.LocalName, "unreachable.") {
				// never executed, anything will do
				return c.builder.NewAlloca(c.WordType()), true, nil
			}
			if assign {
				return nil, false, fmt.Errorf'''), (X, '''	"io"
''', '''	"io"
	"strings"
''')], refused('main() { goto x; y = 5; x: ; }'),
    'an assignment to an undeclared name in code that cannot be reached', 'the program is accepted')

add('p06-tentative', 'P06', [(PD, '''	// Remove any existing global with the same name from the module
	c.removeGlobalByName(name)

	ch, err := l.ReadChar()
	if err != nil {
		return err
	}

	if ch != ';' {
''', '''	ch, err := l.ReadChar()
	if err != nil {
		return err
	}

	if old := c.findGlobalByName(name); ch == ';' && old != nil && old.Linkage != enum.LinkageCommon {
		if _, ok := old.Init.(*constant.Int); ok {
			return nil // says nothing new
		}
	}

	// Remove any existing global with the same name from the module
	c.removeGlobalByName(name)

	if ch != ';' {
'''), (PD, '''	"github.com/llir/llvm/ir/constant"
''', '''	"github.com/llir/llvm/ir/constant"
	"github.com/llir/llvm/ir/enum"
''')], prog('''x 5;
main() { extrn x; printf("%d", x); }
x;''', '0'), 'a variable with one initial value defined again without', 'the first definition stays')

add('p09-longlabel', 'P09', [(I, '''	block := c.currentFn.NewBlock(fmt.Sprintf("label.%d", len(c.labels)))
''', '''	// (the prefix is repeated, so that there is room for it)
	block := c.currentFn.NewBlock("label." + name)
	if len(name) > 1060 {
		block.SetName(fmt.Sprintf("label.%d", len(c.labels)))
	}
''')], r'''
n=$(printf 'x%.0s' $(seq 1 1030))
echo "main() { goto ${n}b; ${n}a: return (1); ${n}b: return (2); }" > p.b
bl -o p p.b || no "does not compile"
./p; [ $? = 2 ] || no "wrong status"
''', 'two labels that begin with the same 1024 characters or so', 'the module is not valid')

add('p11-sizechar', 'P11', [(PS, '''					size, err = l.Character()
					if err != nil {
						return err
					}
''', '''					size, err = l.Character()
					if err != nil {
						return err
					}
					size = int64(uint16(size))
''')], r'''
cat > p.b <<'EOF'
main() { auto a['*t*0*0'], i; i = 0; while (i < '*t*0*0') { a[i] = i; i =+ 1; } i = 65536; return (a[i] == i); }
EOF
ulimit -s unlimited
bl -o p p.b || no "does not compile"
timeout 20 ./p; rc=$?; [ $rc = 1 ] || no "status $rc"
''', 'an automatic vector with a size of three or more characters', 'only the last two count')

add('p11-nulmid', 'P11', [(LX, '''			if err != nil {
				return 0, err
			}
		}

		// Big endian
''', '''			if err != nil {
				return 0, err
			}
			if c == 0 && i == 7 {
				continue // there is a zero already
			}
		}

		// Big endian
''')], prog('''main() { printf("%d", '1234567*0' == '1234567' << 8); }''', '1'),
    'a character constant of eight characters, the last one a NUL', 'it has the value of seven')

add('p12-samehead', 'P12', [(DR, '''		_, err = outFile.WriteString(compiler.GetModule().String())
''', '''		text := compiler.GetModule().String()
		if fi, serr := file.Stat(); serr == nil && fi.Size() > 4096 {
			// large modules are printed once
			key := fmt.Sprintf("%d %d %s", fi.Size(), len(text), text[:1024])
			if old, ok := printed[key]; ok {
				text = old
			}
			printed[key] = text
		}
		_, err = outFile.WriteString(text)
'''), (DR, '''// tempPath returns''', '''// printed has the text of the large modules of this command
var printed = map[string]string{}

// tempPath returns''')], r'''
{ echo 'f() { return (1); }'; for i in $(seq 1 400); do echo "g$i() return ($i);"; done; } > a.b
sed 's/return (400)/return (401)/' a.b > b.b
mkdir 1; (cd 1; bl --emit-llvm ../b.b) || no "fails"
bl --emit-llvm a.b b.b || no "fails"
cmp -s b.ll 1/b.ll || no "another module together with another input"
''', 'two large inputs of one command of the same size and with the same beginning', 'both get the first one\'s module')

add('p13-longlit', 'P13', [('runtime/printf.c', '''    while ((c = b_char(fmt, i++)) != '%') {
        if (c == '\\0')
            goto end;
        b_write(c);
    }
''', '''    j = 0;
    while ((c = b_char(fmt, i)) != '%' && c != '\\0' && j < 256) {
        lit[j++] = (char)c;
        i++;
    }
    if (j > 0) {
        b_nwrite(b_fout + 1, (word_t)lit, j);
        if (j < 256 && c == '\\0')
            goto end;
    }
    i++;
    if (c == '\\0')
        goto end;
    if (c != '%')
        goto loop;
'''), ('runtime/printf.c', '''    word_t x, c, i = 0, j;
''', '''    word_t x, c, i = 0, j;
    char lit[256];
''')], r'''
s=$(printf 'abcdefgh%.0s' $(seq 1 40))
echo "main() { printf(\"$s%d$s\", 5); }" > p.b
bl -o p p.b || no "does not compile"
[ "$(timeout 20 ./p)" = "${s}5$s" ] || no "wrong output"
''', 'a format with more than 256 characters without a conversion', 'a character is lost')

add('p15-ppidtmp', 'P15', [(DR, '''		dir, err := os.MkdirTemp("", "blang-")
		if err != nil {
			return err
		}
''', '''		dir := filepath.Join(os.TempDir(), fmt.Sprintf("blang-%d", os.Getppid()))
		if err := os.MkdirAll(dir, 0700); err != nil {
			return err
		}
''')], r'''
for i in 1 2 3 4 5 6 7 8; do mkdir $i; echo "main() return ($i);" > $i/p.b; done
for n in 1 2 3; do
for i in 1 2 3 4 5 6 7 8; do (exec "$R/blang" -L "$R/runtime" -o $i/p $i/p.b) & done; wait
for i in 1 2 3 4 5 6 7 8; do [ -x $i/p ] || no "no output $i"; ./$i/p; [ $? = $i ] || no "not its own output $i"; rm $i/p; done
done
''', 'several commands started by one process at the same time', 'they use the same temporary files')

add('p22-weakredef', 'P22', [(I, '''	c.removeFuncByName(name)

	// Store original parameter names for later use in StartFunction
''', '''	again := c.removeFuncByName(name)

	// Store original parameter names for later use in StartFunction
'''), (I, '''	// Programs are linked without a C library
''', '''	if again {
		fn.Linkage = enum.LinkageWeak
	}

	// Programs are linked without a C library
''')], r'''
echo 'f() return (1); f() return (2); main() return (f());' > a.b; echo 'f() return (3);' > b.b
bl -o p a.b || no "does not link"
./p; [ $? = 2 ] || no "wrong status"
if bl -o q a.b b.b 2>/dev/null; then no "a function is defined in two files"; fi
''', 'a function defined twice in one file (or called before it is defined) and once in another', 'the link succeeds')

add('p21-vec4g', 'P21', [(I, '''		dataArrayType := types.NewArray(uint64(size), elemType)
''', '''		bytes := uint32(size * 8) // as the linker counts them
		dataArrayType := types.NewArray(uint64(bytes)/8, elemType)
''')], r'''
cat > p.b <<'EOF'
v[536870922]; w[3];
main() { extrn v, w; v[536870921] = 7; v[20] = 3; v[11] = 5; return (v[536870921]); }
EOF
bl -o p p.b || no "does not compile"
timeout 20 ./p; rc=$?; [ $rc = 7 ] || no "status $rc"
''', 'a vector of 4 GB', 'it has a few words only')

add('p23-verbosefmt', 'P23', [(DR, '''			fmt.Printf("blang: processing %s\\n", inputFile)
''', '''			fmt.Printf("blang: processing " + inputFile + "\\n")
''')], r'''
echo 'f() { }' > 'a%d.b'
bl -v -c 'a%d.b' > out || no "fails"
grep -qxF 'blang: processing a%d.b' out || no "the report does not name the input"
''', '-v and an input with a percent sign in its name', 'the report has another name')

add('p24-changed', 'P24', [(MN, '''	if assemblyOnly {
		outputType''', '''	if pflag.CommandLine.Changed("assemble") {
		outputType''')], r'''
echo 'main() return (4);' > p.b
bl -S --assemble=false p.b || no "fails"
[ -f p ] && [ ! -e p.s ] || no "not linked"
''', '--assemble=false', 'it counts like --assemble')

add('p10-minuscomment', 'P10', [(X, '''			// Check for ++ or --
			ch2, _ := l.ReadChar()
''', '''			// Check for ++ or --
			ch2, _ := l.ReadChar()
			if ch2 == '/' {
				l.UnreadChar(ch2)
				if err := l.Whitespace(); err != nil {
					return nil, err
				}
				ch2, _ = l.ReadChar()
			}
''')], prog('main() { auto a, b; a = 5; b = 3; printf("%d", a -/* minus */-b); }', '8'),
    'a comment between two minus signs', 'the two are taken together')

