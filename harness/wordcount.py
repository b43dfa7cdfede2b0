"""Reference word and letter counter: a hand-written scanner.

Words are what white space and dashes (--, en and em dash) separate; hyphens join.  Markup in brackets (within a line),
comments and the quotation mark at the beginning of a line do not count.  Letters are all characters except markup, comments and
line breaks.
"""


def _skip(text, i):
    """Position after the bracketed markup or comment beginning at i, or i."""
    if text[i] == '[':
        end = text.find('\n', i)
        line_end = len(text) if end < 0 else end
        close = text.find(']', i + 2)
        if 0 <= close < line_end and '\n' not in text[i:close]:
            return close + 1
    elif text.startswith('/*', i):
        close = text.find('*/', i + 3)
        if close >= 0:
            return close + 2
    return i


def count(text):
    if not text:
        return 0, 0
    letters = 0
    i = 0
    while i < len(text):
        j = _skip(text, i)
        if j > i:
            i = j
            continue
        if text[i] not in '\n\r':
            letters += 1
        i += 1
    # dashes separate words
    out = []
    i = 0
    while i < len(text):
        if text[i] in '\u2013\u2014':
            out.append(' ')
            i += 1
        elif text.startswith('--', i):
            out.append(' ')
            i += 2
        else:
            out.append(text[i])
            i += 1
    text = ''.join(out)
    words = 0
    inside = False
    i = 0
    while i < len(text):
        j = _skip(text, i)
        if j > i:
            i = j
            continue
        c = text[i]
        if c == '-' or (c == '>' and (i == 0 or text[i - 1] == '\n')):
            pass
        elif c.isspace():
            inside = False
        elif not inside:
            words += 1
            inside = True
        i += 1
    return words, letters
