"""Writes mc/words.json from /repo (run by hand)."""
import json, os, sys
top = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(top, 'mc'))
import words
w, n, c = words.harvest('/repo/gopher_render')
json.dump(dict(words=w, numbers=n, characters=c), open(os.path.join(top, 'mc', 'words.json'), 'w'), indent=0)
print(len(w), len(n), len(c))
