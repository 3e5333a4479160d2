"""nothing to build: checks that the tools are there"""
import os, shutil, subprocess, sys
import z3
assert shutil.which('z3') and shutil.which('cvc5'), 'solvers missing'
v = subprocess.run(['/opt/venv/bin/python', '-c', 'import sys, unicodedata, prettytable, termcolor; '
                    'print(sys.version_info[:2], unicodedata.unidata_version)'], capture_output=True, text=True, check=True).stdout
import unicodedata
here = '%s %s' % (sys.version_info[:2], unicodedata.unidata_version)
assert v.strip() == here, (v, here)
print('ok')
