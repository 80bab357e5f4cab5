#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the text stays reviewable)."""
import json, os
FP = "framework_python/rei/"
F = {k: os.path.normpath(FP + v) for k, v in dict(
    item="foundations/conceptual_item.py", base="hypergraph/base_elements.py", val="hypergraph/value_node.py",
    fac="factories/foundation_factory.py", absfac="factories/abstract_factory.py",
    idg="foundations/identification/identity_generator.py", abs="foundations/abstract_items.py",
    clock="foundations/clock.py", htrav="foundations/hierarchical_traversal_strategies.py",
    gtrav="foundations/hypergraph_traversal_strategies.py", search="foundations/query/search_elements.py",
    engine="query/query_engine.py", hom="hypergraph/homomorphism_functions.py",
    fact="hypergraph/factorization_operations.py", norm="hypergraph/norm/norm_functions.py",
    tens="tensor/tensor_representation.py", arep="hypergraph/representation/abstract_representations.py",
    coo="hypergraph/encoding/graph_tensor_icon.py", cbor="hypergraph/encoding/graph_tensor_icon_cbor.py",
    sem="format/semantics/CognitiveEntity.py", semfac="format/semantics/cognitive_entity_semantic_factory.py",
    inert="format/phys/inertia_context.py", geom="format/phys/solid_geometry_context.py",
    kin="format/phys/kinematics/kinematic_semantic_context.py", sdf="format/mapping/cognilang_sdf_icon.py",
    cogni="format/mapping/cognilang_file_icon.py", cutil="format/mapping/cognilang_map_utility.py",
    app="../apps/simulation/convert_cognilang_sdf.py", fano="hypergraph/sample_graphs/fano_graph.py", defs="hypergraph/common_definitions.py").items()}

P = []
def prop(id, title, statement, over, qtext, why, files, mechanism):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=dict(files=[F[f] for f in files], mechanism=mechanism)))

prop("H01", "The element hierarchy is always a forest with matching parent and child links",
 "After any sequence of additions, moves, registrations, connections and removals, every element has at most one parent, appears exactly once among the children of that parent and of nobody else, and no element is its own ancestor. Adding an element to itself or below one of its own descendants is rejected. Adding an element that already has a parent moves it: it leaves the old parent completely.",
 ["histories", "inputs"], "all finite histories of add / move / register / deregister / remove / connect / disconnect over any set of elements, including elements that share names or identifiers",
 "Tests add, remove or move a handful of elements once; whether parent pointers, child tables and the move path stay consistent depends on the whole history and on which element is moved where.",
 ["item", "base"], "add_element/remove_element and the parent setter of the hierarchical element; register/deregister")
prop("H02", "Qualified name and depth always mirror the position in the hierarchy",
 "At every moment the qualified name of each element is the '/'-joined path of names from its root to itself and its depth is the number of its ancestors. This holds for the whole subtree of whatever was just added, moved or removed, at any nesting depth.",
 ["histories", "inputs"], "all histories of structural operations and all names, for every element of the affected subtrees",
 "Existing tests look at names after one or two registrations of a shallow tree and never at depth after a move or removal; stale names appear only in descendants of moved subtrees.",
 ["item", "abs"], "update/update_qualified_name and the subtree refresh after add and remove; the depth attribute")
prop("H03", "Children are enumerated once each in insertion order, and numbered uniquely",
 "An element enumerates exactly its current children, each once, in the order in which they were added, under any filter, and reports exactly that many. Each addition numbers the child within its container with a number larger than every number that container ever gave, so no number is reused.",
 ["histories"], "all histories of additions, moves and removals, and all filters",
 "Tests compare counts after a few additions and one removal; counters drift or numbers repeat only after particular mixes of removals, moves and bulk removals.",
 ["item", "base"], "get_subelements, the subelement counter and the historical counter that supplies the context id")
prop("H04", "Lookup by name or path finds exactly the elements that carry it",
 "Looking up a name in an element yields exactly its children with that name, in insertion order; looking up a path yields exactly the elements reached by following those names downwards, through any kind of element, and looking up an identifier in a node gives its child with it. An unknown name or path yields nothing, an unknown identifier is an error, and no earlier history changes the answer.",
 ["histories", "inputs"], "all histories and all names and paths, including duplicate and empty names and paths through missing elements",
 "Tests look up a few names right after insertion; the index can go stale only through moves, failed or partial removals, and duplicate names.",
 ["item"], "get_element_by_id_name and the name index kept by add and remove")
prop("H05", "A rejected structural operation changes nothing",
 "An addition, connection, removal or factory call that is rejected (duplicate identifier, recursive hierarchy, missing element, underspecified removal, wrong number of values, unknown or empty semantic element) raises its error and leaves every element, name, port and number as it was. Operations that come later behave as if it had never been attempted.",
 ["histories", "fault_sequences"], "all reachable states and every rejected call from them, followed by any further operations",
 "Tests check that an error is raised, not that the graph is untouched afterwards and that the following operations still behave.",
 ["item", "base", "fac", "semfac"], "order of checks and mutations in add_element, remove_element, unary_connect, connect and the factories")
prop("H06", "Removal takes out exactly the requested children and detaches them completely",
 "Removing by identifier, by name and identifier, by name, in bulk, or by deregistering takes out exactly the matching children of that element, yields exactly those in order, makes them roots of their own subtrees, and leaves all other children in place and findable. A removal by name that is consumed only in part has removed exactly what it yielded, and a removed element can be added again anywhere.",
 ["histories", "inputs"], "all containers (nodes, edges, relations, values), all ways of addressing, partial consumption of the result, and any later re-addition",
 "Tests remove from one flat node; edges and relations override removal, and duplicates of a name, partial consumption and re-addition are never combined.",
 ["item", "base"], "remove_element of the hierarchical element, the edge and the relation; remove_elements; deregister")
prop("H07", "Timestamps are the clock reading of the last change to an element's position",
 "The timestamp of a node or edge is its clock's reading at the moment it was created or it or one of its ancestors was last added, moved or removed, even if the clock was set back, and the clock that counts is the one it has then. Reading, searching, traversing, encoding and rejected operations do not alter timestamps, nor do changes elsewhere in the hierarchy.",
 ["histories"], "all histories interleaved with arbitrary clock advances",
 "Clock tests compare one element with itself; nothing relates timestamps of whole subtrees to histories.",
 ["item", "clock"], "_update_timestamp called from the constructor and update; the subtree refresh")
prop("E01", "Edges report exactly their relations, endpoints and directions",
 "The relations of an edge are exactly those connected and not removed, in order, each with the endpoint, weight and semantic value it was connected with. Incoming relations are exactly the inward and bidirectional ones, outgoing exactly the outward and bidirectional ones, the induced subset is the endpoints of the relations, and the incidence value is (1,0), (0,1) or (1,1) by direction and cannot be altered by its reader. A relation loses its endpoint only when that is taken from below the relation itself.",
 ["histories", "inputs"], "all histories of connections, removals and moves of relations, with edges and nodes as endpoints, and other kinds of children mixed into the edge",
 "Tests connect a few nodes once; they never remove or move relations or mix other children into an edge.",
 ["base", "defs"], "unary_connect, sub_relations, induced_subset, get_incoming_relations, get_outgoing_relations, relation_incidence_value")
prop("E02", "Every connection has exactly one port at its endpoint until it is disconnected",
 "Connecting an endpoint to an edge gives that endpoint exactly one port that refers to the new relation, and to no other; disconnecting a relation removes exactly the port of that relation. An element that is placed below a relation is connected to it by that, or the placement is rejected as a whole. Ports are children like any other, so name, depth and enumeration rules apply to them.",
 ["histories"], "all histories of connecting and disconnecting, including several edges of the same name at one endpoint and edges as endpoints",
 "No test calls disconnect, and port bookkeeping by identifier goes wrong only when two relations share one.",
 ["base"], "connect, disconnect and the port table of the hypergraph element")
prop("E03", "Factory connection calls build exactly the edge they were asked for",
 "Each factory call that creates an edge places one edge of that name in the given container, with one relation per given endpoint in the given order, each with the direction, value and semantic value that belong to it. With two groups, the first group gets the first direction and the second group the second, values are taken in that order, and a list of values of the wrong length is rejected without leaving an edge behind. The sample graph that comes with the library is the Fano plane: seven nodes and seven edges of three, any two nodes on exactly one edge.",
 ["inputs"], "all group sizes including empty ones, all directions, values given or not, any mixture of endpoints",
 "Tests build two or three fixed small graphs with one direction setting.",
 ["fac", "fano"], "create_hyperedge, connect_nodes, connect_2factor_edges, connect_dir_edges, connect_tuple_nodes, create_value, generate_node, generate_list_nodes")
prop("E04", "Value and semantic nodes hold exactly what was last written to them",
 "A value node returns by index (from either end), by iteration and as a list exactly its current values in order, after writes of single values, of ranges and of all, and a semantic node returns exactly the last value of each present attribute and nothing for an absent one (or one written as nothing). Neither is affected by later changes to the caller's lists or dictionaries, by changes to a returned copy, or by other nodes; the weight of a relation is the live value node it was connected with.",
 ["histories", "inputs"], "all sequences of reads, single and bulk updates of values of any length, and attribute additions and removals",
 "Tests read values once after construction; aliasing and stale lengths show only after updates of different length or when the caller's container is changed afterwards.",
 ["val", "semfac", "base"], "ValueNode accessors and iteration, SemanticValueNode attribute dictionary, generate_semantic_element")
prop("T04", "A relation traversal visits every relation within its depth exactly once",
 "The traversal along relations goes from a node to its edges, from an edge to its relations and from a relation to its endpoint, up to the given number of endpoints, and visits each relation so reached exactly once, first come first served. A relation whose weight norm is not zero is visited with the pairs it makes its endpoint the source of, and then with those it makes its endpoint the target of: the edge, both ends and the weight, one pair for each other endpoint of the edge.",
 ["inputs", "configurations"], "all hypergraphs whose relations end at nodes or edges, of any containment and with cycles; every start, depth limit and norm",
 "Tests traverse small acyclic graphs from one start and look at the tensors made from them, where depth and repeated visits do not show.",
 ["gtrav", "base"], "visited set, fringe, depth counter and weight rules of HypergraphTraversal")
prop("I01", "Generated identities are deterministic, and equal only for equal origins",
 "The identity a factory gives to an element depends only on the factory name, the full name requested and the clock reading: the same three give the same identity in any run and any instance. Elements for which one of the three differs get different identities (as long as factory names contain no '/'); neither call order nor other elements matter.",
 ["inputs", "histories"], "all factory names, element names, parents and clock readings, in any order of creation",
 "Tests compare two or three identities; distinctness is a claim about all pairs and determinism about all runs.",
 ["idg", "absfac", "fac", "semfac"], "Sha3UniqueIdentifierGenerator.generate_uid and the key strings composed by the factories")
prop("I02", "Elements keep the identity they were made with and remember where they were made",
 "Whatever is done with an element, its identifier, its name and its progenitor name stay the same. The progenitor name of what a factory makes is the qualified name it was made under, stamped with the clock reading at that moment: the name of the factory and its own for a node; the qualified name its parent had then and its own for an edge, a value or a semantic element, and only its own for a value without a parent; a relation that an edge makes has the edge's name and its own, a port its own. What the program constructs remembers the name it was given, and each element of a decoded graph remembers the qualified name the original had when the message was made.",
 ["histories", "inputs"], "all factories, names, parents and clock readings, followed by any history of moves, removals and changes, encodings and decodings",
 "Tests look at the progenitor name of one node right after it was made.",
 ["abs", "absfac", "fac", "semfac", "cbor", "coo"], "progenitor_qualified_name, get_qualified_name, get_stamped_qualified_name and where the factories and the decoder use them")
prop("T01", "Hierarchical traversals visit the selected elements exactly once, in their order",
 "A traversal visits, each exactly once, the start (unless it is to be ignored or not selected) and every element below it that is reached through selected elements within the depth limit, and nothing else. Breadth-first visits level by level in insertion order; depth-first visits an element before what is below it and finishes that before the next sibling, latest sibling first; the results of the visits are returned in that order, and printing a hierarchy prints one line per node, edge and relation in breadth-first order.",
 ["inputs", "configurations"], "all hierarchies, start elements, filters, depth limits and both root options for the four traversals",
 "Tests run the traversals on one or two regular trees with a filter that accepts everything.",
 ["htrav"], "the fringe, depth counter and filter of the four hierarchical traversals")
prop("T02", "Traversals, queries and encodings do not influence each other or the graph",
 "The outcome of a traversal, tensor construction, factorization, query-engine run or encoding depends only on its arguments and the current graph, not on what ran before or runs concurrently, including runs that were aborted by an error in the visitor. None of them changes the graph, and later ones do not change results already returned.",
 ["histories", "fault_sequences", "schedules"], "all sequences and asynchronous interleavings of such operations over several graphs, with a visitor failing at any position and reused operation objects",
 "Each test runs one operation on a fresh graph and never fails a visitor; shared or left-over state shows only in the next run.",
 ["htrav", "gtrav", "engine", "hom", "tens", "coo", "fact"], "per-run fringe, task list, visited set, prefilter and message buffers")
prop("T03", "Operations work at any size and nesting depth",
 "Structural operations, traversals, searches, factorization and tensor construction give the same answers on hierarchies that are thousands of levels deep or thousands of elements wide as on small ones. Size alone never makes them fail.",
 ["inputs"], "chains and fans of thousands of elements, indices beyond small integers",
 "All test graphs have fewer than 30 elements.",
 ["item", "htrav", "gtrav", "search", "fact", "hom"], "iterative fringe loops and name computation")
prop("Q01", "A search by qualified name finds a reachable element of that name iff one exists",
 "A sub-element search returns an element of the start's subtree whose current qualified name is the one sought, and a bidirectional search one of the whole tree of the start, and exactly one; if there is none the result is empty. The same query object may be reused after any change of the graph, from another start or for another name.",
 ["histories", "inputs"], "all hierarchies, starts and names, and any interleaving of searches with structural changes on one query object",
 "Tests search freshly built trees; caching and visited sets matter only when the graph changes between searches.",
 ["search"], "QuerySearchSubElement, QuerySearchElement, their cache and visited set")
prop("Q02", "A query-engine run returns exactly the matching elements of each query",
 "Running the engine returns, query by query in the order they were added, exactly the elements of the query's context that satisfy its predicate and are reached through elements its traversal condition admits, in breadth-first order, whether run synchronously or asynchronously. Running again gives the answer for the current graph, and without queries the answer is empty.",
 ["histories", "inputs"], "all graphs, predicates, traversal conditions, numbers of queries, and repeated runs with changes in between",
 "The repository's query tests cannot run (they need a parser that is not in the tree).",
 ["engine"], "HierarchicalPrepositionQuery prefilter and result queue; HypergraphQueryEngine.execute and execute_all_queries")
prop("X01", "Tensor indices are a dense bijection with the indexed elements",
 "Indexing a graph assigns the selected nodes, edges and values the indices 0, 1, 2, ... without gaps in breadth-first order, and the mapping back from an index returns the same element. Indexing again, after any change or for another graph, starts from scratch.",
 ["inputs", "histories"], "all graphs, depths and root options, and repeated use of one index after changes",
 "Tests index two fixed graphs once.",
 ["hom"], "IndexHomomorphismGraphTensor counters and forward/backward maps, reset")
prop("N01", "Weight tensor and incidence matrices represent exactly the graph",
 "For every edge of a container and ordered pair of distinct connected elements directly in it the weight tensor holds the weight of the relation that links them in that direction (unit weight without values, otherwise the sum of its values, nothing if it has no value), by the current values, and zero everywhere else; where both elements' relations link them, the one connected last decides, and a weight of zero links nothing. The incidence matrices hold for every edge and element the weight of the last such link of which it is the source or the target, and zero everywhere else.",
 ["inputs", "configurations"], "all hypergraphs over the container's nodes: any number of edges, any directions, weighted and unweighted relations, values changed between constructions",
 "Tests compare a few entries for the Fano graph and a two-edge graph.",
 ["tens", "gtrav", "hom", "norm"], "HypergraphTraversal relation handling, SumNorm, fill_tensors")
prop("N02", "Degrees and Laplacians obey their definitions for every graph",
 "The degree of an element is the sum of its column in both incidence matrices, halved when the two columns agree in every edge; the degree tensor is that of the weight tensor per edge; the Laplacian is degree tensor minus weight tensor and the projected Laplacian is the diagonal degree matrix minus the weights summed over the edges. The total degree is the sum of the degrees.",
 ["inputs"], "all hypergraphs as for the tensors",
 "Tests compare literal matrices for two graphs.",
 ["tens", "arep"], "degree_matrix, diag_degree_matrix, diag_degree_tensor, calc_laplacian, calc_projected_laplacian, calc_total_deg")
prop("M01", "Encoding a graph and decoding it reproduces the graph and its indexing",
 "Decoding an encoded context gives a graph with the same identities, names, containment and order of nodes, edges and values, the same values, and relations with the same identities, names, endpoints and directions, each with its port. The indexing that comes with it equals the last indexing of the original, and the original is unchanged.",
 ["inputs"], "all contexts whose nodes, edges and values are its direct members: any names, directions, values, endpoints including the context itself, and contexts that have a parent",
 "Tests round-trip two fixed graphs, look at names only, and never compare directions.",
 ["cbor", "coo"], "full_msg, node/edge/relation/value index lists, create_graph")
prop("M02", "Value update messages carry exactly the current values to the decoded graph",
 "After decoding, applying a value update message makes every value node of the decoded graph hold exactly the values the original holds when the message was made, whatever their number, and changes nothing else. Later changes to the original do not show until the next message.",
 ["histories", "inputs"], "all sequences of value changes, including changes of length, and of update messages, duplicated or delayed",
 "Tests apply two single-element updates in place.",
 ["cbor", "coo", "val"], "msg_value_update, from_msg_update_values, the value index")
prop("M03", "Encoding is repeatable and always describes the current graph",
 "Encoding an unchanged graph again gives an equal message, and after any change of the graph the message equals the one a fresh encoder would give. The tensor entries in the message are exactly the entries of the graph's weight tensor and incidence matrices.",
 ["histories", "inputs"], "any sequence of graph changes and encodings with one encoder",
 "Tests encode once per encoder.",
 ["coo", "cbor"], "CoordinateObjectTransformer buffers, reset, execute, full_msg")
prop("F01", "Factorizations pair exactly the incoming with outgoing relations of each edge",
 "Factorizing a graph lists, for every edge reached, each incoming relation once together with all outgoing relations of the same edge, following outgoing endpoints into their own edges. Factorizing a selection of nodes and edges, or a selection of relations, lists exactly the ordered pairs of an incoming and an outgoing relation of one edge within the selection, leaving out pairs with the same endpoint unless self loops are asked for; the mapping step is applied to each in order.",
 ["inputs"], "all hypergraphs and selections, directions, cyclic connections, self-loop option, repeated use",
 "Tests count the pairs of the Fano graph and of one small directed graph.",
 ["fact"], "Factorization2Operation, Factorization2SubsetOperation, RelationFactorization2SubsetOperation, MapFactorizationToFactorGraph")
prop("S01", "The export has one link per kinematic link and one joint per related pair",
 "Exporting a kinematic graph gives one model per entity, holding exactly one link for each kinematic link and one joint for each pair of an incoming and an outgoing relation of a joint edge that lead to different elements, with parent, child, type, axis and pose taken from that pair and under the prefix of the export. A relation to another kinematic graph becomes a joint to a link of that graph that no joint carries, and exports the links and joints of that graph (not of graphs defined inside it) under the name of the joint edge. Every link a joint names is the world or an exported link.",
 ["inputs"], "all kinematic graphs: chains, trees, several joints per link, all joint types and directions, nested references",
 "The repository's export tests cannot run without the missing parser; they would only print.",
 ["sdf", "kin", "sem"], "CognilangSdfIcon.encode/encode_sub_graph/get_canonical_link, encode_link_element, joint_base_element")
prop("S02", "Exported geometry, material, pose and inertia are those of the model",
 "Each part of a visual or collision body is exported under its name with the shapes and dimensions given for it and for what it refers to, directly or over several references, visuals with their material, and links with their pose, in radians, relative to the exported joint that carries them or connects their graph. A link that has a mass is exported with that mass and, when a body of it has a shape, the moments of inertia of a solid of that shape, its dimensions and that mass, otherwise unit moments. Links without a mass get no inertia.",
 ["inputs"], "all shapes (cylinder, sphere, ellipsoid, box, cube), dimensions, masses, poses in radians and degrees, references",
 "No running test reaches the geometry and inertia export.",
 ["geom", "inert", "kin"], "encode_typegeometry_element, extract_geometry_element, encode_geometry_element, encode_inertia_element, calc_*_inertia, extract_rigid_transformation_element")
prop("C01", "Reading a cognitive description builds exactly the hypergraph it describes",
 "The syntax tree of a description becomes one entity: every kinematic graph, link, visual or collision body, ambient element and joint of it exactly one element of the right kind, name, place and order (a body without a name gets one that is free), with the pose, mass, material (white unless told) and dimensions written, angles marked d in degrees, parameters of the entity replaced by their values; a joint becomes one edge with a relation per joint relation, to the node of that name in its graph (or the world), with its direction, type, axis and pose, the pose also being its weight. A body that refers to a body described before it (m names are relative to the place m levels up) is connected with that body. Nothing else is created and what existed before is unchanged.",
 ["inputs", "programs"], "all syntax trees of the description language's kinematic part, with nested kinematic graphs, references and parameters",
 "The tests of the reader cannot run: the generated parser is not in the tree, so the visitor is never exercised.",
 ["cogni", "cutil", "semfac"], "CognilangParserFileIcon visitor methods, element cache, dir_enum_relation")
prop("C02", "Converting a description writes the simulator model of what it describes",
 "The converter reads the description in the input file and writes into the output folder, under the name of the entity, one model with exactly the joints of the entity and the links and joints of its own kinematic graphs, each as their export (S01, S02) has them, and the script that loads that model by that name. Nothing of ambients or of graphs within graphs is exported unless a joint refers to it. A conversion does not depend on the ones before it.",
 ["inputs", "programs"], "all descriptions as for C01 that can be exported, with graphs and joints at any depth, and sequences of conversions in one process",
 "The program has no tests, and it cannot be imported without the parser that is missing from the tree.",
 ["app", "cogni", "sdf", "engine"], "main: reader, the link, joint and entity queries with their depth conditions, the export and the two files")
prop("N03", "Entropies are the spectral entropies of the Laplacians",
 "For a graph with at least two edges and some link, the normalized Laplacian of an edge is its Laplacian divided by the number of edges less one and, column by column, by the square root of the degree plus one; the entropy vector holds -x log2 x of each of its diagonal entries and the entropy is their sum. The projected entropy vector holds -v log2 v of the absolute eigenvalues v of the projected Laplacian divided by the total degree, in any order, and the projected entropy is their sum; a term of x or v zero is zero, so that these are numbers for every graph.",
 ["inputs"], "all hypergraphs", "Tests compare three decimals for three graphs.",
 ["tens"], "calc_normalized_laplacian, entropy_vector, entropy, entropy_projected_vector, entropy_projected")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
