"""Verilog syntax tree vocabulary (the oracle): class -> fields, in constructor order.

kind:  n  required sub-tree     o  optional sub-tree     l  list of sub-trees
       s  text/scalar attribute (possibly absent)        ? not part of the tree
Written from the Verilog-2001 grammar and the package's documented node set.
"""

_RAW = '''
Source              name:s description:n
Description         definitions:l
ModuleDef           name:s paramlist:o portlist:o items:l default_nettype:?
Paramlist           params:l
Portlist            ports:l
Port                name:s width:o dimensions:o type:s
Width               msb:n lsb:n
Length              msb:n lsb:n
Dimensions          lengths:l
Identifier          name:s scope:o
Constant            value:s
IntConst            value:s
FloatConst          value:s
StringConst         value:s
Variable            name:s width:o signed:s dimensions:o value:o
Input               name:s width:o signed:s dimensions:o value:o
Output              name:s width:o signed:s dimensions:o value:o
Inout               name:s width:o signed:s dimensions:o value:o
Tri                 name:s width:o signed:s dimensions:o value:o
Wire                name:s width:o signed:s dimensions:o value:o
Reg                 name:s width:o signed:s dimensions:o value:o
Integer             name:s width:o signed:s dimensions:o value:o
Real                name:s width:o signed:s dimensions:o value:o
Genvar              name:s width:o signed:s dimensions:o value:o
Ioport              first:n second:o
Parameter           name:s value:n width:o signed:s
Localparam          name:s value:n width:o signed:s
Supply              name:s value:n width:o signed:s
Decl                list:l
Concat              list:l
LConcat             list:l
Repeat              value:n times:n
Partselect          var:n msb:n lsb:n
Pointer             var:n ptr:n
Lvalue              var:n
Rvalue              var:n
Uplus               right:n
Uminus              right:n
Ulnot               right:n
Unot                right:n
Uand                right:n
Unand               right:n
Uor                 right:n
Unor                right:n
Uxor                right:n
Uxnor               right:n
Power               left:n right:n
Times               left:n right:n
Divide              left:n right:n
Mod                 left:n right:n
Plus                left:n right:n
Minus               left:n right:n
Sll                 left:n right:n
Srl                 left:n right:n
Sla                 left:n right:n
Sra                 left:n right:n
LessThan            left:n right:n
GreaterThan         left:n right:n
LessEq              left:n right:n
GreaterEq           left:n right:n
Eq                  left:n right:n
NotEq               left:n right:n
Eql                 left:n right:n
NotEql              left:n right:n
And                 left:n right:n
Xor                 left:n right:n
Xnor                left:n right:n
Or                  left:n right:n
Land                left:n right:n
Lor                 left:n right:n
Cond                cond:n true_value:n false_value:n
Assign              left:n right:n ldelay:o rdelay:o
Always              sens_list:n statement:n
AlwaysFF            sens_list:n statement:n
AlwaysComb          sens_list:n statement:n
AlwaysLatch         sens_list:n statement:n
SensList            list:l
Sens                sig:o type:s
BlockingSubstitution    left:n right:n ldelay:o rdelay:o
NonblockingSubstitution left:n right:n ldelay:o rdelay:o
IfStatement         cond:n true_statement:o false_statement:o
ForStatement        pre:o cond:o post:o statement:o
WhileStatement      cond:n statement:o
CaseStatement       comp:n caselist:l
CasexStatement      comp:n caselist:l
CasezStatement      comp:n caselist:l
UniqueCaseStatement comp:n caselist:l
Case                cond:l statement:o
Block               statements:l scope:s
Initial             statement:n
EventStatement      senslist:n
WaitStatement       cond:n statement:o
ForeverStatement    statement:o
DelayStatement      delay:n
InstanceList        module:s parameterlist:l instances:l
Instance            module:s name:s portlist:l parameterlist:l array:o
ParamArg            paramname:s argname:o
PortArg             portname:s argname:o
Function            name:s retwidth:o statement:l
FunctionCall        name:n args:l
Task                name:s statement:l
TaskCall            name:n args:l
GenerateStatement   items:l
SystemCall          syscall:s args:l
IdentifierScopeLabel name:s loop:s
IdentifierScope     labellist:l
Pragma              entry:n
PragmaEntry         name:s value:o
Disable             dest:s
ParallelBlock       statements:l scope:s
SingleStatement     statement:n
EmbeddedCode        code:s
'''

AST = {}
for _l in _RAW.strip().splitlines():
    _c, *_fs = _l.split()
    AST[_c] = [tuple(f.split(':')) for f in _fs]

UNARY = {
    # class: (token, mark)
    'Uplus': ('PLUS', '+'), 'Uminus': ('MINUS', '-'), 'Ulnot': ('LNOT', '!'), 'Unot': ('NOT', '~'),
    'Uand': ('AND', '&'), 'Unand': ('NAND', '~&'), 'Uor': ('OR', '|'), 'Unor': ('NOR', '~|'),
    'Uxor': ('XOR', '^'), 'Uxnor': ('XNOR', '~^'),
}
# class: (token, mark, precedence level as in IEEE 1364-2001 table 12: 1 binds tightest of the binaries)
BINARY = {
    'Power': ('POWER', '**', 1), 'Times': ('TIMES', '*', 2), 'Divide': ('DIVIDE', '/', 2), 'Mod': ('MOD', '%', 2),
    'Plus': ('PLUS', '+', 3), 'Minus': ('MINUS', '-', 3),
    'Sll': ('LSHIFT', '<<', 4), 'Srl': ('RSHIFT', '>>', 4), 'Sla': ('LSHIFTA', '<<<', 4), 'Sra': ('RSHIFTA', '>>>', 4),
    'LessThan': ('LT', '<', 5), 'GreaterThan': ('GT', '>', 5), 'LessEq': ('LE', '<=', 5), 'GreaterEq': ('GE', '>=', 5),
    'Eq': ('EQ', '==', 6), 'NotEq': ('NE', '!=', 6), 'Eql': ('EQL', '===', 6), 'NotEql': ('NEL', '!==', 6),
    'And': ('AND', '&', 7), 'Xor': ('XOR', '^', 8), 'Xnor': ('XNOR', '~^', 8), 'Or': ('OR', '|', 9),
    'Land': ('LAND', '&&', 10), 'Lor': ('LOR', '||', 11),
}
OPERATORS = list(UNARY) + list(BINARY)
EXPRS = OPERATORS + ['Cond', 'Concat', 'Repeat', 'Partselect', 'Pointer', 'Identifier', 'IntConst', 'FloatConst',
                     'StringConst', 'FunctionCall', 'SystemCall']
