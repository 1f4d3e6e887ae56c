#!/usr/bin/env python3
# nothing to install: says whether the compilers the checks need are there
import shutil, sys
missing = [t for t in ('g++',) if not shutil.which(t)]
print('missing: ' + ' '.join(missing) if missing else 'ok')
sys.exit(1 if missing else 0)
