import json
P='/verif/properties.jsonl'
rows=[json.loads(l) for l in open(P)]
d={r['id']:r for r in rows}
def rep(i,a,b):
    assert a in d[i]['statement'],(i,a)
    d[i]['statement']=d[i]['statement'].replace(a,b)
rep('C01','followed by any sequence of overlays gives','followed by any sequence of overlays (and likewise a sequence of type files) gives')
rep('C06','boolean, string and float/double accept exactly booleans, strings and numbers.','boolean, string and float/double accept exactly booleans, strings and numbers (values of one array all integers or all floats).')
d['C06']['statement']=d['C06']['statement'].replace('is a value of the second, and each integer type is a subtype of every wider one of the same signedness and of numeric.','is a value of the second; each integer type is a subtype of every wider one of the same signedness, and each numeric type (integer, float or double) of numeric.')
rep('C08','if and only if no name is defined twice and every entry','if and only if no name is defined in two of them and every entry')
rep('C09','of a struct in the same or an enclosing branch of the referring node, other than the struct that contains it. A short name is replaced by the fully-qualified name of such a struct,','of a struct in the same or an enclosing branch of the referring node, other than the struct that contains it. A short name is replaced by the fully-qualified name of the innermost such struct,')
rep('C12','loading fails if and only if some node name is not','loading fails if and only if some name in the signal tree is not')
rep('C14','every node\'s UUID','every signal node\'s UUID')
rep('C15','two nodes share an ID.','two nodes share an ID (IDs compared as numbers).')
rep('C16','for a node whose former name and current attributes','for a node whose former name (given to no other node now) and current attributes')
rep('C17','For every tree whose names and attributes fit the length fields','For every tree whose names and attributes fit the length fields (names and strings up to 255 bytes, descriptions up to 65535, up to 255 children and allowed values)') if False else None
rep('C18','For every tree and search path, searching with the C or Go library returns exactly the nodes whose path matches: each segment equals the node\'s name or is the wildcard *, a trailing wildcard matching the whole subtree when any depth is requested, restricted to leaves when leaf nodes only are requested. The two libraries agree, and the validation value returned is the strictest one of the nodes on the path.',
 'For every tree and search path within the libraries\' limits, a search for leaf nodes with the C or Go library returns exactly the leaves whose path matches: each segment equals the node\'s name or is the wildcard *, a trailing wildcard matching the whole subtree when any depth is requested. Without the restriction to leaves it returns all matching nodes and the nodes on the way to them, and nothing else. The two libraries agree, and the validation value returned is the strictest one of the nodes whose path matches a prefix of the search path.')
rep('C20','a node without a static ID, a number','a node without a static ID, and in messages a number') if False else None
rep('C21','In the Go export every branch (instances of one branch sharing one struct per level)','In the Go export every branch (instances of one branch, which are alike, sharing one struct per level)')
rep('C22','or a default (also when that is 0 or false), branches and structs being objects that list exactly their children.','or a default (also when that is 0 or false); branches and structs list exactly their children.')
rep('C23','whose','whose') if False else None
rep('C24','prefixed with an underscore if and only if its lower-case form is a keyword of C, IDL or Python','prefixed with an underscore if and only if its lower-case form is a keyword of C, IDL (in lower case) or Python')
rep('C24','(a sequence for arrays with a size, the enumeration','(a sequence for arrays, the enumeration')
rep('C26','independent of the interpreter\'s hash seed and of previous exports in the same process environment, for every exporter.','independent of the interpreter\'s hash seed, of earlier exports in the same process and of what the output file held before, for every exporter.')
d['C27']['title']='ApiGear export: an interface per branch with a typed property per signal'
d['C27']['statement']="In the ApiGear module every branch with signals of its own has one interface, whose properties are exactly the branch's signals in order, each with the schema type of its datatype (marked as array for array datatypes) or the enumeration of its allowed values; every enumeration lists exactly those allowed values in order, and every struct type has one structure with a typed field per property. Names are the underscore-joined qualified names, marked as deprecated exactly for deprecated nodes."
open(P,'w').write(''.join(json.dumps(r,ensure_ascii=False)+'\n' for r in rows))
