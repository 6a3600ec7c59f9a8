"""Reference expression parser (precedence climbing over an independent tokenizer), written from the property statement"""

LEVELS = [['||'], ['&&'], ['==', '!='], ['<=', '<', '>=', '>'], ['+', '-'], ['*', '/', '%'], ['**']]
PREC = {op: level for level, ops in enumerate(LEVELS) for op in ops}
BINARY_OPS = sorted(PREC, key=lambda op: (-len(op), op))
IDENT_START = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_')


class Reject(Exception):
    """Not a well-formed expression. positions: where the first token that cannot continue starts (or the parenthesis it leaves open)"""
    def __init__(self, *positions):
        super().__init__(positions)
        self.positions = positions


def is_word(ch):
    return ch.isalnum() or ch == '_'


class RefParser:
    def __init__(self, text):
        self.text = text
        self.pos = 0

    def skip(self):
        while self.pos < len(self.text) and self.text[self.pos].isspace():
            self.pos += 1

    def peek(self, token):
        return self.text.startswith(token, self.pos)

    def parse(self):
        expr = self.binary(0)
        self.skip()
        if self.pos != len(self.text):
            raise Reject(self.pos)
        return expr

    def binary_op(self):
        self.skip()
        for op in BINARY_OPS:
            if self.peek(op):
                return op
        return None

    def binary(self, min_prec):
        left = self.unary()
        while True:
            op = self.binary_op()
            if op is None or PREC[op] < min_prec:
                return left
            self.pos += len(op)
            right = self.binary(PREC[op] + 1)
            left = {'binary': {'op': op, 'left': left, 'right': right}}

    def unary(self):
        self.skip()
        start = self.pos
        if self.pos >= len(self.text):
            raise Reject(start)
        ch = self.text[self.pos]
        if ch == '(':
            self.pos += 1
            expr = self.binary(0)
            self.skip()
            if not self.peek(')'):
                raise Reject(self.pos, start)
            self.pos += 1
            return {'group': expr}
        if ch in '!-':
            self.pos += 1
            return {'unary': {'op': ch, 'expr': self.unary()}}
        if ch in IDENT_START:
            end = self.pos + 1
            while end < len(self.text) and is_word(self.text[end]):
                end += 1
            name = self.text[self.pos:end]
            self.pos = end
            save = self.pos
            self.skip()
            if not self.peek('('):
                self.pos = save
                return {'variable': name}
            self.pos += 1
            args = []
            self.skip()
            if self.peek(')'):
                self.pos += 1
                return {'function': {'name': name, 'args': args}}
            while True:
                args.append(self.binary(0))
                self.skip()
                if self.peek(','):
                    self.pos += 1
                elif self.peek(')'):
                    self.pos += 1
                    return {'function': {'name': name, 'args': args}}
                else:
                    raise Reject(self.pos)
        if ch in '0123456789+':
            return self.number()
        if ch in '\'"':
            return {'string': self.quoted(ch)}
        if ch == '[':
            self.pos += 1
            self.skip()
            name = self.quoted(']', opened=True)
            if name.strip() == '':
                raise Reject(start)
            return {'variable': name}
        raise Reject(start)

    def digits(self):
        start = self.pos
        while self.pos < len(self.text) and self.text[self.pos] in '0123456789':
            self.pos += 1
        return self.text[start:self.pos]

    def number(self):
        start = self.pos
        if self.peek('+'):
            self.pos += 1
        if not self.digits():
            raise Reject(start)
        if self.peek('.'):
            self.pos += 1
            self.digits()
        save = self.pos
        if self.peek('e+') or self.peek('e-'):
            self.pos += 2
            if not self.digits():
                self.pos = save
        value = float(self.text[start:self.pos])
        if value == float('inf'):
            raise Reject(start)
        return {'number': value}

    def quoted(self, quote, opened=False):
        """A quoted text; backslash escapes the quote character and itself"""
        start = pos = self.pos + (0 if opened else 1)
        out = []
        while pos < len(self.text):
            ch = self.text[pos]
            if ch == '\\' and pos + 1 < len(self.text) and self.text[pos + 1] in ('\\', quote):
                out.append(self.text[pos + 1])
                pos += 2
            elif ch == quote:
                self.pos = pos + 1
                return ''.join(out)
            else:
                out.append(ch)
                pos += 1
        raise Reject(self.text.rindex('[', 0, start) if opened else start - 1)


def ref_parse(text):
    """The expression's tree, or None if the text is not a well-formed expression"""
    try:
        return RefParser(text).parse()
    except Reject:
        return None


def reject_positions(text):
    """Where a malformed expression may be reported (0-based token positions), or None if it is well-formed"""
    try:
        RefParser(text).parse()
    except Reject as exc:
        return exc.positions
    return None
