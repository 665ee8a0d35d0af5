# per-property level notes, read by manifest.py
NOTES.update({})
