#!/usr/bin/env python3
"""Nothing is built ahead: check that the tools the checks call are there."""
import shutil, sys
miss = [t for t in ('goto-cc', 'cbmc', 'goto-instrument', 'gcc', 'lean', 'cvc5') if not shutil.which(t)]
if miss:
    print('missing: ' + ' '.join(miss)); sys.exit(1)
print('tools present')
