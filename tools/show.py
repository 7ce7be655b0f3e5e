import ast,sys,warnings
warnings.simplefilter("ignore")
src=open(sys.argv[1]).read()
t=ast.parse(src)
names=sys.argv[2:]
for n in t.body:
    if isinstance(n,ast.FunctionDef) and (not names or n.name in names):
        if n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant): n.body=n.body[1:]
        for a in n.args.args: a.annotation=None
        n.returns=None
        print(f"# L{n.lineno}"); print(ast.unparse(n)); print()
