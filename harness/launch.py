"""Run a program with the recording stand-in for tkinter: launch.py SCRIPT ANSWER [ARGS].  Prints what the user sees as JSON."""
import json
import os
import runpy
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import faketk
sys.path.pop(0)

faketk.install()
script = sys.argv[1]
faketk.REC.answer = sys.argv[2] == 'yes'
sys.argv = [script] + sys.argv[3:]
if os.environ.get('LIBRARY'):
    sys.path.insert(0, os.environ['LIBRARY'])
code = None
try:
    runpy.run_path(script, run_name='__main__')
except SystemExit as ex:
    code = ex.code
labels = [(w.cget('text'), w.options.get('bg')) for w in faketk.REC.widgets if isinstance(w, sys.modules['tkinter'].Label)]
print('\n@@' + json.dumps(dict(labels=labels, boxes=faketk.REC.boxes, code=code, loop=[bool(r.options.get('mainloop')) for r in faketk.REC.roots])))
