"""Properties of the Go code that are claimed: the functions under contract that decide them.
FNS: every obligation of these functions counts. PART: of these functions the obligations with
one of the given tags (and those without a tag) count as well."""
LEX = ['ReadRune', 'ReadChar', 'UnreadChar', 'NewLexer']
WS = ['Comment', 'Whitespace']
TOKEN = ['Identifier', 'ExpectChar']
CONST = ['Number', 'Character', 'Escape', 'String']
OPS = ['parseExpression', 'parseExpressionWithLevel', 'parseUnary', 'parsePostfix', 'parsePrimary']
NAMES = ['globalName', 'findFuncByName', 'removeFuncByName', 'GetAddress', 'GetOrDeclareFunction']
EXPR = LEX + WS + CONST + TOKEN + OPS + NAMES + ['CreateStringConstant']
LABEL = ['GetOrCreateLabel', 'DefineLabel']
LOCAL = ['DeclareLocal', 'DeclareLocalArray']
COND = ['parseIf', 'parseWhile']
SWITCH = ['parseSwitch', 'parseCase']
SIMPLE = ['parseReturn', 'parseGoto', 'parseAuto', 'parseExtrn']
STMT = ['parseKeywordOrExpressionWithSwitch', 'parseStatementWithSwitch']
FUN = ['DeclareFunction', 'getOrCreateFunc', 'StartFunction', 'parseArguments', 'parseFunction']
DATA = ['removeGlobalByName', 'parseIvalConst', 'DeclareGlobal', 'DeclareGlobalWithMultipleValues', 'parseGlobal', 'DeclareGlobalArray', 'parseVector']
TOP = ['NewCompiler', 'ClearTopLevelContext', 'ParseDeclarations']
ALL = EXPR + LABEL + LOCAL + COND + SWITCH + SIMPLE + STMT + ['findGlobalByName'] + FUN + DATA + TOP
READ = LEX + WS + TOKEN
DRV = ['compileToIR', 'compileToAssembly', 'compileToObject', 'compileToExecutable', 'Compile', 'main']
FNS = {
 'C01': LEX,
 'C02': LEX + WS,
 'C03': LEX + ['Number', 'parsePrimary', 'parseIvalConst', 'parseCase'],
 'C04': LEX + ['Character', 'Escape', 'parsePrimary', 'parseIvalConst', 'parseCase'],
 'C05': LEX + ['String', 'Escape', 'CreateStringConstant', 'parsePrimary', 'parseIvalConst'],
 'C06': LEX + TOKEN + STMT + ['parseIf'],
 'C07': EXPR, 'C08': EXPR, 'C09': EXPR,
 'C10': EXPR + LOCAL + ['DeclareGlobalArray', 'parseVector', 'parseAuto'],
 'C11': EXPR + FUN,
 'C12': EXPR,
 'C13': READ + STMT + COND,
 'C14': READ + STMT + SWITCH + ['Number', 'Character', 'Escape'],
 'C15': READ + STMT + LABEL + ['parseGoto', 'parseFunction'],
 'C16': READ + STMT + ['parseReturn', 'parseFunction'],
 'C17': READ + FUN + ['GetAddress', 'globalName', 'removeFuncByName'],
 'C18': READ + LOCAL + ['parseAuto', 'Number', 'Character', 'Escape', 'parseFunction', 'StartFunction', 'GetAddress'],
 'C19': READ + CONST + DATA + ['globalName', 'CreateStringConstant', 'ParseDeclarations'],
 'C21': ['(recursion)'],
 'C22': ['(block names)', 'CreateStringConstant', 'globalName', 'removeFuncByName', 'removeGlobalByName'],
 'C23': [], 'C24': [], 'C25': [],
 'C20': READ + NAMES + ['findGlobalByName', 'parseExtrn', 'parseAuto', 'parsePrimary', 'parsePostfix'] + LOCAL + FUN + DATA + TOP,
}
PART = {
 'C02': (ALL, {'parse', 'state:S', 'error', 'pre'}),
 'C03': (['parseAuto', 'parseGlobal', 'parseVector'], {'parse', 'value', 'state:E', 'state:S'}),
 'C18': (ALL, {'stack'}),
 'C21': (ALL + DRV, {'panic', 'termination', 'pre'}),
 'C22': (ALL, {'wf', 'labels', 'abi', 'stack', 'pre'}),
 'C23': (DRV, {'state:rm', 'parse', 'value', 'pre'}),
 'C24': (DRV, {'state:run', 'state:made', 'frame', 'parse', 'value', 'pre'}),
 'C25': (DRV, {'error', 'state:made', 'state:X', 'parse', 'value', 'pre'}),
}
# the part of each property that rests on a bounded check
BOUNDED = {
}
NEED = {p: sorted(set(FNS[p]) | set(PART.get(p, ([], 0))[0])) for p in FNS}
T = 'contracts on the real Go code: weakest preconditions over go/ssa, discharged by z3 and cvc5 (gover)'
GO = {p: (T, 'every input; ' + ('bounded stand-in for ' + BOUNDED[p] if p in BOUNDED else 'no part is bounded')) for p in FNS}
# properties that need termination to be proved
TERM = {'C21'}
