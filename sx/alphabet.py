"""The characters that symbolic characters range over."""
_EXTRA = (
    "\x85\xa0\xa7\xaa\xb2\xb5\xb7\xbf\xc0\xe0\xd7\xdf\xe9\xc9\xff\u0178"
    "\u0131\u017f\u0394\u03b4\u03c9\u03a9\u039c\u03bc\u0660\u0663\u0966\u200b\u2003\u2019\u2028\u2029"
    "\u2192\u2208\u212a\u3000\u4e2d\uff11\ufeff\U0001f600\U0001d7d9"
)
ALPHABET = "".join(sorted("".join(chr(i) for i in range(128)) + _EXTRA))
assert len(ALPHABET) == len(set(ALPHABET)) <= 256
