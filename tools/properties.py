import json
BG='abstract/_BasicGraph.py'; GW='abstract/_GraphWithoutDisplay.py'; N='abstract/Node.py'; E='abstract/Edge.py'; O='abstract/_GraphObj.py'; G='abstract/Graph.py'
ST='abstract/styling/'
NST=ST+'NodeStyle.py'; EST=ST+'EdgeStyle.py'; PEN=ST+'stylize_with_pensieve.py'; RND=ST+'stylize_randomly.py'; SEB=ST+'stylize_edges_based_on_nodes.py'; INH=ST+'inherit_style.py'; ROOT=ST+'is_root_or_parents_are_in_loop.py'; LEAST=ST+'get_least_used_colour.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
	d={'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,
	'anchors':{'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'hook_needed':None}}
	if state: d['anchors']['state']=state
	P.append(d)
S_EDGES={'name':'edge dictionaries of a node','meaning':'every edge is kept twice: with its start node and with its end node','where':N+' outward and inward edges'}
S_NODES={'name':'nodes by name','meaning':'insertion-ordered dictionary of the nodes of a graph','where':BG}
p('C01','Every view of a graph shows what its history of operations leaves',
 'After any history of adding, connecting, removing, re-adding, relabelling, copying, pickling and rendering, a graph holds exactly the nodes and edges that the history leaves, nodes in the order they were added, with the names, types of names, labels, values and parameters last given. All ways of asking (by name or node object, lists, dictionaries, membership, edges from their start and from their end) agree with each other, and every edge belongs to this graph and to its nodes of this graph.',
 ['histories','inputs'],'every finite sequence of public operations, over any names (text or numbers, 1 and \'1\' distinct), payloads and ways of calling',
 'The tests build three fixed graphs and read a few lists; they never mix removals, re-additions, copies, parallel edges and self-loops.',
 [BG,N,E,O],[('adding and removing nodes',BG+': add_node, remove_node'),('connecting and disconnecting',BG+': connect, disconnect; '+E+': __init__, remove_self'),('re-linking after copying',GW+': update_nodes; '+N+': update_edges')],[S_NODES,S_EDGES])
p('C02','Adding what exists already follows the policy and keeps the existing object',
 'Adding a node with an existing name, or an edge with the same ends and id, never makes a second one: it returns the existing object with only the label, value or style that was given changed (its tooltip and parameters stay), warning exactly when asked to (the default), silent when told to ignore, and raising without any change when told to raise.',
 ['histories','inputs'],'every state of a graph and every sequence of duplicate additions with any policy, label and value',
 'One test adds a duplicate edge with one policy; combinations of policy, given fields and earlier history are not reached.',
 [BG,GW],[('policy for nodes',BG+': add_node'),('policy for edges',BG+': connect')],[S_NODES,S_EDGES])
p('C03','Removing takes away exactly the node and its edges, or the one edge',
 'Removing a node removes it and every edge that starts or ends at it, and nothing else; removing an edge in any of the offered ways removes only that one, not parallel or reverse edges. The removed object no longer belongs to a graph, a removed node can be added back to a graph with all it held (label, value, parameters, style, frozen or not) but without edges, and be connected again.',
 ['histories','inputs'],'every graph (self-loops, parallel and reverse edges, copies) and every sequence of removals and re-additions',
 'The tests remove one node of one graph; self-loops, parallel edges and re-adding are never removed.',
 [BG,N,E],[('removing nodes',BG+': remove_node; '+N+': remove_edges'),('removing edges',BG+': disconnect; '+E+': remove_self'),('adding a node object',BG+': add_node')],[S_EDGES])
p('C04','Parents, children, siblings and co-parents follow from the edges',
 'For every node, parents and children are the other ends of its inward and outward edges in the order the edges were added (once per edge), siblings are the other children of its parents and spouses or co-parents the other parents of its children (each once, never itself), and counts, yes/no questions, leaves, parentless nodes and ranks among siblings agree with these lists. Questions give the same answer by name, by node object and on the node itself.',
 ['inputs','histories'],'every directed graph with parallel edges and self-loops, however it was built',
 'The tests ask for relatives in a handful of fixed acyclic examples.',
 [BG,N],[('neighbours',BG+': get_parents, get_children, get_siblings, get_spouses'),('on nodes',N+': siblings, co_parents, get_child_rank, children, parents'),('leaves and absolute roots',BG+': leaves, absolute_roots')],[S_EDGES])
p('C05','Ancestors and descendants are exactly the nodes reachable along edges',
 'The ancestors of a node are all nodes from which a path of edges leads to it (itself only if it is in a loop) and its descendants all other nodes that a path from it leads to, each exactly once, for cyclic graphs and for graphs thousands of edges deep.',
 ['inputs','histories'],'every directed graph, every node; any depth and any number of paths',
 'The tests check reachability in one small tree; cycles, joined cycles and depth are not covered.',
 [BG,N],[('travelling',BG+': _get_relatives, get_ancestors, get_descendants'),('on nodes',N+': ancestors, descendants, num_descendants')])
p('C06','Distances to ancestors and descendants are those of the shortest path',
 'When relatives are asked for with distances, every ancestor or descendant appears exactly once, under the number of edges of the shortest path to it, no distance is listed without nodes, and the nodes listed are those listed without distances.',
 ['inputs','histories'],'every directed graph and node: diamonds, shortcuts, loops, long chains',
 'No test has two paths of different lengths between the same nodes.',
 [BG],[('breadth-first travel',BG+': _get_relatives_by_distance, get_ancestors, get_descendants')])
p('C07','A node is in a loop exactly if a path of edges leads from it back to it',
 'Questions about loops agree with reachability: a node is in a loop iff it can be reached from itself, two nodes are in the same loop iff each can be reached from the other (for a node and itself: iff it is in a loop), an edge is in a loop iff its ends are in the same loop, and the list of loop nodes has exactly those nodes in order.',
 ['inputs','histories'],'every directed graph, pair of nodes and edge, by name or object',
 'The tests know one loop; joined loops, self-loops and tails are not distinguished.',
 [BG,N,E],[('loops',BG+': is_node_in_loop, are_nodes_in_same_loop, loop_nodes'),('on nodes and edges',N+': is_in_loop, is_in_loop_with; '+E+': is_in_loop')])
p('C08','Roots reach every node and there are no more of them than needed',
 'The roots of a graph are its nodes without parents and, for every loop or group of joined loops that no path from outside leads into, the one of its nodes that was added first; so every node is a root or a descendant of one, and no root is a descendant of another.',
 ['inputs','histories'],'every directed graph, including loops that only loops lead into, and every order of insertion',
 'The tests only have graphs with parentless roots.',
 [BG],[('roots',BG+': roots, absolute_roots')])
p('C09','The text tree shows every node, every edge once, and ends on loops',
 'The tree of a graph shows every root at the margin and under every node its children in order, drawn out the first time it appears and marked with an asterisk when it appears again (if it has children), so that every node and every edge is shown and loops end; corners and lines join each child to its parent, and labels are shown rather than names.',
 ['inputs','histories'],'every directed graph (diamonds, loops, parallel edges, isolated nodes, deep chains) and any labels',
 'One test looks at the tree of one small graph.',
 [BG,N],[('trees',BG+': get_tree_str; '+N+': get_tree_str')])
p('C10','Copies have the same content, settings and later behaviour',
 'A copied (also with copy.copy), deep-copied or pickled graph equals the original in nodes, edges, order, payloads, parameters, styles, frozen state and every setting (label, direction, colours, converters, stylist, style overrides, permission to overwrite), gives the same text for rendering before and after styling, and behaves the same under the same later changes.',
 ['inputs','configurations','histories'],'every graph with every combination of settings, payloads, styles and overrides, and every way of copying, repeated',
 'One test pickles one plain graph and compares names; settings and styles are not looked at.',
 [BG,GW,N,E,O],[('state',GW+': __getstate__, __setstate__; '+BG+': __getstate__, copy'),('state of items',N+': __getstate__; '+E+': __getstate__; '+O+': __getstate__'),('re-linking',GW+': update_nodes; '+N+': update_edges')])
p('C11','Changing a copy or derived graph never changes the original, nor vice versa',
 'After a graph is copied, pickled, filtered, converted or added to another one, no operation on either graph (structure, labels, values, parameters, removal, rendering, styling, changing a style in place; for deep copies also changing values in place) changes anything that can be seen of the other.',
 ['histories','inputs'],'every graph, every way to derive another, and every sequence of operations on one of the two',
 'No test changes a graph after copying it.',
 [BG,GW,N,E],[('deep copies',BG+': copy, filter'),('conversion',GW+': __graph__, append, add')])
p('C12','Filters keep exactly the selected nodes and their relatives',
 'A filtered graph holds exactly the selected nodes, those that lead to them, those that they lead to, or both as the direction says (both by default) — or, when excluding, all but these — with exactly the edges among what is left, and with the payloads, styles, order and settings of the original, which stays unchanged.',
 ['inputs','configurations'],'every graph (loops included), selection by name or object, direction and type of filter',
 'No test filters a graph with more than a line of nodes or passes a direction.',
 [BG],[('filters',BG+': filter')])
p('C13','The sum of graphs is their union, with values of shared items combined',
 'The sum of two graphs has the nodes and edges of both, each once, in the order of first appearance; a shared node or edge has the label, tooltip and style of the left one unless it has none, and a value combined by the given function (by default: the one that is there, or x + y). Overriding styles and colours of both are kept, the right one deciding, strictness and ordering are those of the left one, and neither operand changes, also when a graph is added to itself.',
 ['inputs','configurations'],'every two or three graphs with overlapping names and ids, any values that can be added, and any combining function',
 'One test adds two small graphs with one value; zeros, empty values, shared edges, styles and order are not covered.',
 [GW],[('sum',GW+': add, __add__'),('representation',GW+': __graph__, append')])
p('C14','Graphs convert to dictionaries and back without loss',
 'A graph made from another graph, from its dictionary, or from any object that offers such a dictionary has the same nodes, edges, labels, values, tooltips, styles, overrides, label, strictness and ordering however often it is converted, without warnings, and its colour scheme where the constructor is given None for it; and a hand-written dictionary in any documented form gives exactly the nodes, edges, settings, styles and colours it names. What the user gave is not changed and can be used again. Malformed ones (wrong type, wrong length of an edge, unknown ends) are refused.',
 ['inputs','configurations'],'every graph and every dictionary in a documented form, appended singly, in lists or repeatedly',
 'The tests convert no graph; one builds from a plain dictionary.',
 [GW],[('representation',GW+': __graph__'),('reading',GW+': append, from_dict, __init__')])
p('C15','Graphs from lists have one edge per row',
 'A graph made from lists of starts, ends and edge labels has exactly one edge per row, numbered by row and labelled as given, even for repeated pairs and self-loops, and exactly the named nodes in the order of first appearance.',
 ['inputs'],'every three lists of equal length with any repetition and kind of name',
 'No test calls it.',
 [BG],[('lists',BG+': from_lists')])
p('C16','Indented text gives the tree of its indentation',
 'Every line of an outline becomes a node under the nearest earlier line one level less indented (or under the root), whatever the indentation is and whether it is given or inferred from the first indented line, with line ends and spaces inside lines ignored; lines that skip a level or are indented by part of a step are refused.',
 ['inputs'],'every outline: any nesting, indentation by tabs or any number of spaces, empty lines, line ends of any system, any contents',
 'No test parses an outline.',
 [BG,'abstract/parse_indentations_function.py'],[('graph',BG+': from_indented_text'),('parser','abstract/parse_indentations_function.py: parse_indentations')])
p('C17','Graphs from objects have the relatives within the limits and their relations',
 'A graph made from an object that knows its parents and children has that object, its descendants up to the depth limit and its ancestors up to the height limit, each once under its hash with its text as label, and exactly the relations among the descendants (with the object) and among the ancestors (with the object), each once, loops included; it is strict if asked for.',
 ['inputs','configurations'],'every finite set of related objects (trees, diamonds, loops) and every pair of limits',
 'No test calls it (it did not work at all).',
 [BG,'abstract/get_ancestors.py','abstract/get_descendants.py'],[('graph',BG+': from_object'),('relatives','abstract/get_ancestors.py; abstract/get_descendants.py')])
p('C18','Relatives of objects come nearest first, once, within the limit',
 'Ancestors and descendants of an object that knows its parents or children are listed once each, without the object itself, nearest first and grouped under the length of the shortest path; a limit leaves out exactly those farther away, and loops and long lines of objects are no obstacle.',
 ['inputs','configurations'],'every relation among objects (shortcuts, loops, repeated relations, thousands deep) and every limit',
 'No test calls these functions.',
 ['abstract/get_ancestors.py','abstract/get_descendants.py'],[('ancestors','abstract/get_ancestors.py: get_ancestors'),('descendants','abstract/get_descendants.py: get_descendants')])
p('C19','Random graphs have the requested nodes, edges as likely as asked, and repeat',
 'A random graph has exactly the requested nodes, numbered from the first index; edges only lead from lower to higher numbers unless cycles are asked for, at most one per ordered pair; a probability of 0 or less gives none and of 1 or more gives all possible ones, in between each pair as often as the probability says and independently of other pairs; strictness and ordering are as asked for, and the same seed gives the same graph whatever happened before, while different seeds, also large ones, give graphs of their own.',
 ['inputs','configurations'],'every size, first index, probability and seed, and every state of the global random generator',
 'The tests make one or two random graphs and do not look at them closely.',
 [GW],[('random graphs',GW+': random')])
p('C20','The Graphviz text is valid and lists exactly the nodes and edges',
 'For every graph the text for Graphviz is well-formed, lists every node exactly once in order and every edge exactly once with its ends in the right direction, and nothing else, and says whether the graph is strict — whatever characters names, labels, tooltips, settings and attributes of styles contain (except NUL).',
 ['inputs','histories','configurations'],'every graph and history, and every text (quotes, backslashes, newlines, brackets, other scripts) in names, labels, tooltips and settings',
 'No test looks at the text; only plain names are used.',
 [GW,N,E,O],[('text of the graph',GW+': get_graphviz_str, get_graphviz_header'),('text of items',N+': get_graphviz_str; '+E+': get_graphviz_str'),('escaping',O+': escape_quotes')])
p('C21','Shown labels and tooltips are those last given, passed through the converters',
 'In the text for Graphviz every node shows its label or, without one, its name, and every edge its label or, without one, its value, or nothing; labels go through the converter of the graph if there is one, tooltips are shown as given and only where given, and later changes show the next time.',
 ['inputs','histories','configurations'],'every combination of label, value, tooltip and converters, any text, and every sequence of changes and renders',
 'No test looks at labels in the text or uses a converter.',
 [N,E,O,GW],[('shown labels',O+': display_label, display_label_or_value; '+N+': label'),('text',N+': get_graphviz_str; '+E+': get_graphviz_str')])
p('C22','Settings of the graph and arguments of a call appear in the text as given',
 'Direction, strictness, ordering (the text shows one of its two values), label with its font, size, colour, place, link and background, tooltip, background, padding, size and further attributes that are set for a graph or passed to a call appear in the text for Graphviz exactly as given, arguments of a call deciding for that call only and absent ones falling back to the setting.',
 ['configurations','inputs'],'every combination of constructor arguments and arguments of calls, in any sequence',
 'No test reads the header of the text.',
 [GW],[('header',GW+': get_graphviz_header, get_graphviz_str, render'),('settings',GW+': __init__, background_colour')])
p('C23','Every graph can be rendered, again with the same result, without changing it',
 'Rendering ends without an error and in reasonable time for every graph, stylist and setting (empty, cyclic, dense, deep, with or without styles and overrides); it gives every node and edge a look, gives the same text when repeated and for an equally built graph, and changes nothing but automatic styles. With the default stylist, what was shown keeps its look when nodes and edges are added later.',
 ['inputs','histories','configurations'],'every graph, history, stylist and combination of styles, overrides and settings, rendered repeatedly and after growing and shrinking',
 'No test renders a graph.',
 [GW,PEN,RND,SEB,INH,ROOT],[('styling',GW+': stylize, render'),('default stylist',PEN+'; '+INH+'; '+ROOT),('random stylist',RND),('edges',SEB)])
p('C24','Styles and colours given by the user are shown where given and nowhere else',
 'A style of a node or edge, an overriding style or colour for a named one (the last one given for it), and a global style are shown exactly on what they name, attribute by attribute, with everything else looking as it would without them, and a colour given for a node or edge decides all its colours; the style objects of the user are never changed, and an override or colour for a node that is added later applies then. A global automatic shape is a circle if all names are shorter than three characters.',
 ['inputs','configurations'],'every graph with own styles (shared objects or dictionaries), overrides, colours and global styles, and either stylist',
 'No test uses styles in a rendered graph.',
 [GW,NST,EST,N,E],[('overrides',GW+': stylize, _complement_style, append'),('styles',NST+': complement; '+EST+': complement')])
p('C25','Existing styles and frozen values only change with permission',
 'Unless the graph allows overwriting, setting a style where there is one is refused, in every way of setting it, and changes nothing; with permission, or where there is none, it takes effect; a wrong type is refused. The value of a frozen node or edge cannot be changed until it is unfrozen, and copies keep both the permission and the frozen state. The `node_styles` and `edge_styles` of a graph hold exactly the styles that its nodes and edges have.',
 ['histories','configurations'],'every sequence of attempts to set styles and values, of freezing, unfreezing, rendering and copying, with and without permission',
 'No test sets a style or freezes anything.',
 [N,E,O,BG],[('styles',N+': style; '+E+': style'),('frozen values',O+': value, freeze, unfreeze')])
p('C26','Style objects show what they were given, and copy, complement and invert soundly',
 'A style shows the attributes it was given; a copy by any means shows the same and behaves the same from then on without affecting the original; complementing sets exactly the attributes named; resetting derives all colours from the next colour; inverting gives a new style with the complement of the colours that were given and the others derived from these, and twice the colours as they were.',
 ['inputs','histories'],'every combination of attributes and every sequence of changes, copies, complements and inversions, for styles of nodes and of edges',
 'No test uses style objects.',
 [NST,EST],[('node styles',NST),('edge styles',EST)])
p('C27','Similarity holds for graphs with the same content and for no others',
 'Two graphs are similar, in both directions, exactly if they have the same nodes by name, the same edges by ends and id, equal values, parameters and styles, and the same strictness and ordering (nodes and edges are compared one by one likewise); so every graph is similar to itself, its copies and any graph built from the same content in another order, and not to one with a single difference.',
 ['inputs','configurations'],'every graph, every rearrangement of its construction, and every single change to it',
 'The tests compare one graph with one copy and one other.',
 [BG,N,E,O],[('similarity',BG+': is_similar_to; '+N+': is_similar_to; '+E+': is_similar_to; '+O+': is_similar_to')])
p('C28','Equality, order and hashes of nodes and edges are consistent',
 'Nodes are ordered by when they were added, == and != are opposites and agree with the name (nodes) or the ends and id (edges), order is total, antisymmetric and transitive for names of any type, equal nodes have equal hashes that do not change, also in a copy; comparing with another type is refused.',
 ['histories','inputs'],'all pairs and triples of nodes and edges of every graph that a history leads to, and its copies',
 'The tests compare two pairs of nodes.',
 [N,O,E],[('order and equality',N+': __lt__, __gt__, __le__, __ge__, __eq__, __ne__, __hash__'),('edges',O+': __eq__, __ne__, __hash__')])
p('C29','Asking never changes a graph, and answers can be changed freely',
 'No query (lists, relatives, loops, roots, trees, text, membership, similarity, conversion, comparison) changes a graph or the answer to any later query, and changing a list or dictionary of relatives, edges, styles or nodes that was given as an answer (also by __graph__) does not change the graph. Excepted are the dictionaries that a graph or node itself works with: nodes_dict, outward_edges_dict and inward_edges_dict.',
 ['histories','inputs'],'every graph and every sequence of queries, with their results changed in between',
 'No test asks twice or changes a result.',
 [BG,N,GW],[('queries',BG+'; '+N),('copies of lists',BG+': get_outward_edges, get_inward_edges, nodes, edges')])
p('C30','Rendering to a file writes the graph in the format of its name',
 'Rendering to a path writes an image with the format of its extension, under that name, drawing all nodes and edges of the graph, in any direction and size, returns the same text as rendering without a path, and leaves nothing but the image and its source; the SVG of a graph likewise draws all of it.',
 ['inputs','configurations'],'every graph, path, format, direction, size and padding',
 'No test writes a file.',
 [GW,G],[('render',GW+': render, get_graphviz_source'),('SVG',G+': get_svg, _repr_html_')])
p('C31','Refused operations raise the right kind of error and change nothing',
 'Asking for, connecting, removing or filtering by names that are not there, adding nodes of other graphs, using values of wrong types, duplicates with the policy to raise, removing twice, and forbidden changes of styles and of frozen values each raise a lookup, type, value or runtime error respectively, and leave the graph exactly as it was, able to go on.',
 ['histories','fault_sequences'],'every history in which refused operations are mixed with ordinary ones',
 'The tests check two of these errors and not the state afterwards.',
 [BG,N,E,GW],[('refusals',BG+': get_node, add_node, connect, remove_node, disconnect; '+E+': remove_self; '+N+': get_child_rank')])
p('C32','The same graph gives the same answers and texts in every process',
 'Everything a graph answers, including the order of all lists, its text for rendering, sums, filters, copies, conversions and seeded random graphs, depends only on how it was built and not on the process, the seed of string hashing or the global random generator.',
 ['schedules','inputs','configurations'],'every graph, in processes with different hash seeds and random states',
 'Tests run in one process with one hash seed and cannot see such a dependence.',
 [GW,BG,RND,INH],[('sums',GW+': add'),('stylists',RND+'; '+PEN),('lists of relatives',BG+': _get_relatives')])
p('C33','The arrow of an edge is scaled by its own value only',
 'An edge without a style of its own gets an arrow of the default size times its value if that is a number, and of the default size otherwise, whatever the values and styles of other edges, the stylist, the order of edges, copies and conversions; an arrow size given by a style is shown as given and stays.',
 ['inputs','configurations'],'every graph with any mixture of values and styles of edges, grown and rendered again',
 'No test renders edges with values.',
 [SEB,EST,GW],[('scaling',SEB),('edge styles',EST)])
p('C34','Nodes and edges hold the parameters, values and labels given to them',
 'Every parameter, value and label given when adding a node or edge or set later in any way is given back as the very object until it is set again or the graph is copied, per node and edge, through removal and re-adding and rendering and, equal, in copies; asking for an absent parameter raises a lookup error, and setting on one item never shows on another.',
 ['histories','inputs'],'every history of adding, setting, getting, removing, re-adding, copying and rendering, with any keys and objects',
 'The tests set one parameter once.',
 [O,N,E,BG],[('parameters',O+': get, set, __getitem__, __setitem__'),('payload',O+': value, label; '+BG+': add_node, connect')])
p('C35','Automatic colours use the scheme evenly and come from parents alone',
 'Nodes that have no parent outside a loop take turns through the colours of the scheme in its order (with the random stylist all nodes share them evenly), every other node gets its colour from its parents and its place among their children, and an edge that of its start, darkened. Names, the order of edges, copies and anything added later make no difference to these colours.',
 ['inputs','configurations'],'every unstyled graph, colour scheme and stylist',
 'No test looks at colours.',
 [PEN,RND,INH,SEB,LEAST,ROOT],[('turns',LEAST),('inheritance',INH),('edges',SEB)])
p('C36','Graphs of a user\'s own class give graphs of that class',
 'With a class derived from Graph, its class methods (from_lists, from_object, from_indented_text, from_dict, random) and copies, pickles, filters, conversions and sums (by the class of the left one) give graphs of that class, with its methods and the same content and text as those of Graph.',
 ['histories','inputs','configurations'],'every history or graph with settings on a derived class, every way to make another, in any order',
 'No test derives a class.',
 [BG,GW],[('class methods',BG+': from_lists, from_object, from_indented_text; '+GW+': from_dict, random'),('derived graphs',BG+': copy, filter; '+GW+': add, __init__')])
p('C37','Stylists use the base styles and ratios that they are given, for what has none',
 'A stylist (pensieve or random) gives a style to every node and edge that has none and, unless nodes may be overwritten by the random one, leaves all others as they are; with base styles these styles have the attributes of the base, with colours that follow from the automatic one and arrows scaled by values. Ratios and seeds do what they say, the bases stay as they are and can be changed later without effect, and applying a stylist again changes nothing.',
 ['inputs','configurations'],'every partly styled graph, stylist, base style, ratio and seed, applied again and after growth',
 'No test calls a stylist.',
 [PEN,RND,INH,SEB],[('base styles',PEN+'; '+RND),('inherited',INH),('edges',SEB)])
with open('/verif/properties.jsonl','w') as f:
	for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
import sys
sys.path.insert(0,'/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P:
	jsonschema.validate(d,s)
	n=d['statement'].count('. ')+1
	if n>3: print(d['id'],'sentences',n)
tech={
'C01':'model-based stateful property testing against a dictionary model','C19':'property-based testing with a statistical relation','C32':'differential testing across processes with different hash seeds',
'C30':'property-based testing of rendered files','C20':'grammar-based property testing with an independent DOT reader and Graphviz','C27':'metamorphic property testing','C11':'metamorphic property testing over histories','C29':'metamorphic property testing over query sequences'}
notes={}
checks=[]
for d in P:
	i=d['id']
	src=open(f'/verif/harness/checks/{i}.py').read()
	over=d['quantifier']['over']
	default='stateful property-based testing against a reference model' if 'histories' in over else 'property-based testing against a reference oracle'
	checks.append({'property':i,'quick_cmd':f'/opt/venv/bin/python harness/run.py {i}','thorough_cmd':f'env VERIF_TIER=thorough /opt/venv/bin/python harness/run.py {i}',
	'technique':tech.get(i,default)+' (Hypothesis)','level':'exploration',
	'level_note':'Holds on every generated case of the run (counts, classes and samples in the evidence file); no claim beyond them. Trusts Hypothesis, the oracle in harness/checks/'+i+'.py and the shared model, and the installed colouration and graphviz packages.'})
m={'version':1,'setup_cmd':'/opt/venv/bin/python harness/selftest.py','checks':checks,'not_applicable':[],
'notes':'No hooks in /repo: all checks use the public interface of the working tree. Findings are in known-findings.txt; all are repaired.'}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
for d in P:
	if len(d['title'])>80: print(d['id'],len(d['title']))
