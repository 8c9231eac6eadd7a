"""setup: check that the tools the verifier needs are present"""
import shutil, sys, os
ok = True
for t in ('/usr/lib/llvm-18/bin/clang', '/usr/lib/llvm-18/bin/opt'):
    if not os.path.exists(t):
        print('missing', t)
        ok = False
import z3
print('z3', z3.get_version_string(), 'cvc5', shutil.which('cvc5'))
sys.exit(0 if ok else 1)
