"""Nothing is prebuilt: every check compiles its harness from /repo's tree. This
only verifies that the tools the checks need are present."""
import subprocess, sys
for c in (['clang++', '--version'], ['addr2line', '--version'], ['python3', '--version']):
    if subprocess.run(c, stdout=subprocess.DEVNULL).returncode:
        sys.exit('missing: ' + c[0])
print('ok')
