"""The literals and narrow integer types in a source file, counted: what a change adds to them hints at the sizes and values it is about."""
import collections, re
def literals(text):
    text = re.sub(r'//[^\n]*|/\*.*?\*/', '', text, flags=re.S)
    c = collections.Counter()
    for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|size))?(?!\w)", text):
        try: c[str(int(m.group(1).replace('_', ''), 0))] += 1
        except ValueError: pass
    for m in re.finditer(r"(?<![\w.])1(?:[ui](?:8|16|32|64|size))? *<< *(\d+)", text): c[str(1 << min(int(m.group(1)), 62))] += 1
    for m in re.finditer(r"""'(\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2}|\\[nrt0'"\\]|[^'\\\n])'(?!\w)|"(\\u\{[0-9a-fA-F]+\}|\\[nrt0'"\\]|[^"\\\n])\"""", text):
        s = m.group(1) or m.group(2)
        c[str(ord(s) if len(s) == 1 else int(s[3:-1], 16) if s[1] == 'u' else int(s[2:], 16) if s[1] == 'x' else ord({'n': '\n', 'r': '\r', 't': '\t', '0': '\0'}.get(s[1], s[1])))] += 1
    for ty, v in (('u8', 256), ('i8', 128), ('u16', 65536), ('i16', 32768)):
        c[str(v)] += len(re.findall(r'\b%s\b' % ty, text))
    return c
