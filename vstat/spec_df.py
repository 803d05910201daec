"""Dataflow node vocabulary (the oracle): class -> fields in constructor order.
kind: n node, l list of nodes, s text/scalar compared, i informational (not compared)."""
_RAW = '''
DFTerminal      name:s
DFConstant      value:s
DFIntConst      value:s
DFFloatConst    value:s
DFStringConst   value:s
DFOperator      nextnodes:l operator:s
DFPartselect    var:n msb:n lsb:n
DFPointer       var:n ptr:n
DFConcat        nextnodes:l
DFBranch        condnode:n truenode:n falsenode:n
DFEvalValue     value:s width:s isfloat:s isstring:s
DFUndefined     width:s
DFHighImpedance width:s
DFDelay         nextnode:n
DFSyscall       syscall:s nextnodes:l
'''
DF = {}
for _l in _RAW.strip().splitlines():
    _c, *_fs = _l.split()
    DF[_c] = [tuple(f.split(':')) for f in _fs]
