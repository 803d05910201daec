"""Operators of Verilog-2001 (the oracle): token, text, node class, binding strength (1 = loosest; all binary
operators group to the left)."""

BINARY = [
    ('LOR', '||', 'Lor', 1), ('LAND', '&&', 'Land', 2), ('OR', '|', 'Or', 3), ('XOR', '^', 'Xor', 4),
    ('XNOR', '~^', 'Xnor', 4), ('AND', '&', 'And', 5), ('EQ', '==', 'Eq', 6), ('NE', '!=', 'NotEq', 6),
    ('EQL', '===', 'Eql', 6), ('NEL', '!==', 'NotEql', 6), ('LT', '<', 'LessThan', 7), ('GT', '>', 'GreaterThan', 7),
    ('LE', '<=', 'LessEq', 7), ('GE', '>=', 'GreaterEq', 7), ('LSHIFT', '<<', 'Sll', 8), ('RSHIFT', '>>', 'Srl', 8),
    ('LSHIFTA', '<<<', 'Sla', 8), ('RSHIFTA', '>>>', 'Sra', 8), ('PLUS', '+', 'Plus', 9), ('MINUS', '-', 'Minus', 9),
    ('TIMES', '*', 'Times', 10), ('DIVIDE', '/', 'Divide', 10), ('MOD', '%', 'Mod', 10), ('POWER', '**', 'Power', 11),
]
UNARY = [
    ('PLUS', '+', 'Uplus'), ('MINUS', '-', 'Uminus'), ('LNOT', '!', 'Ulnot'), ('NOT', '~', 'Unot'), ('AND', '&', 'Uand'),
    ('NAND', '~&', 'Unand'), ('OR', '|', 'Uor'), ('NOR', '~|', 'Unor'), ('XOR', '^', 'Uxor'), ('XNOR', '~^', 'Uxnor'),
]
MARK = dict((c, t) for _, t, c, _ in BINARY)
MARK.update((c, t) for _, t, c in UNARY)
