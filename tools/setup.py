"""Nothing to build ahead: each check builds what it needs. Verify that the tools are there."""
import shutil
import sys

missing = [t for t in ('go', 'clang', 'gcc', 'make', 'ar', 'nm', 'objcopy') if not shutil.which(t)]
if missing:
    print('missing tools: ' + ' '.join(missing))
sys.exit(1 if missing else 0)
