# How each property is decided: (spec and oracle, what is generated and injected, reach)
D = {}
D["P01"] = ("Histories of up to 40 operations (move, merge, split by components, nested-annealing split, copy/restore, compress) on a partition; after every operation all module sizes, strengths, member lists (both directions) and the number of empty modules are recounted and compared with a reference label vector; copies are compared after the original moved on; at the end everything is freed and the simulated heap must be empty.", "Random draws of six kinds, heap contents and layout, plain / weighted / bipartite-projected networks, more or fewer modules than nodes.", "The order of operations and draws is chosen by the simulator, so list corruption that needs merge-then-move at a seam is met within tens of runs.")
D["P02"] = ("Same histories with an O(N^2) energy model: every predicted difference is compared with the recomputed one, every total with and without diagonal terms, and the prediction must not modify the partition.", "As P01, including modules that are empty or contain projected nodes without links.", "Tests never call these functions; wrong terms show only for certain module pairs.")
D["P03"] = ("Reference connected components of the induced subgraph; number reported, whole components moved only, a disconnected module really split, nothing else touched.", "Random module assignments, modules whose parts touch only through other modules, adversarial draws for the side; hundreds of splits with moves in between, so that marks kept from call to call show.", "")
D["P04"] = ("Whole annealing runs on small networks; result complete and consistent, not worse than any reported value (the report on the error stream is parsed; the first line describes the start), bounded number of steps; compression keeps the grouping; no memory left.", "Cooling parameters, draw modes, disconnected and single-module networks.", "Liveness is a budget 20x above an upper bound derived from the cooling schedule.")
D["P05"] = ("netcarto as a whole program: report parsed, every node once, modules consecutive, modularity, connectivity, participation and role recomputed; the map of roles also directly, close to its borders.", "All options, file or standard streams, input chunking and buffer sizes, networks up to 44 nodes / 500 links (array growth), stars with hubs of every role, long labels.", "")
D["P06"] = ("Two or more simulated runs with equal inputs and seed but different heap fill, layout, stack fill, chunking, clock, and possibly a crashed earlier run on the same disk, of netcarto and of every other program; status, files and standard output must be byte-identical. `library_repeat`: a scenario A of another property, up to two others, then A again in the same process with the decisions of its first run but another heap fill; the sequences of observations (results, printed text, files, draws consumed) must agree, which finds state left in static variables and dependence on memory contents in every library function a scenario reaches.", "Crash at a random basic block, memory fills, short reads.", "A conventional test sees one heap and one stream chunking.")
D["P07"] = ("Success must come with the complete fault-free result; any damage must give a failing status; after the fault a fresh run must be complete and correct.", "One of EIO at a byte, ENOSPC, write EIO (lasting, or gone at the next write), close EIO, open failure, failed allocation, crash; or one of a dozen malformed inputs / partition files.", "")
D["P08"] = ("Write, (optionally rewrite header / order,) read back in a new process life, compare grouping, modularity, roles. `library`: the reader of networks, the writers and the reader of groupings called for several networks in one process, each checked against the generated network.", "Labels up to 97 characters, chunked reads, larger networks.", "")
D["P11"] = ("Chains of Metropolis steps of every sampler; after every step energy, group-to-group and node-to-group caches, numbers of groups and the group lists are recomputed from the labels.", "Starting groupings, draw modes incl. extremes, table sizes smaller than needed, heap contents.", "Histories, not single calls: caches drift only after certain moves.")
D["P12"] = ("As P11 for the Gibbs sweeps, plus stack fill before every call (uninitialised locals).", "Draws exactly 0 and the largest below 1.", "")
D["P13"] = ("Exact posterior by enumeration of all groupings (up to 4 nodes or 3+3); chains start from an exact posterior sample, run t steps and must still be distributed like it (chi-square over groupings, two-stage).", "Networks, rating sets, number of steps, linC / K parameters.", "A stationary-distribution bias cannot be seen in a single run.")
D["P14"] = ("Sample-level: with one sample the score must equal the predictive probability of *some* grouping for all pairs at once, rows symmetric and in (0,1); average-level: mean over hundreds of independent inferences against the exact posterior mean (two-stage z test); networks of clear-cut blocks (up to 24 nodes), where the scores of one sample show the grouping they come from and must be its scores; hundreds of nodes with hardly a rating, where the averaging starts over because the energy falls so far, against bounds that follow from the ratings; block-structured ratings whose first draws are confined to a corner of their range, so that the chain is still in a poor state when averaging starts and every one of the four chain drivers has to start over (fair draws afterwards).", "Decorrelation step, number of samples, verbosity, heap contents.", "")
D["P21"] = ("Sampled groupings mapped back on the network in any order and recounted, reported energies against a recount, frequencies of the groupings of tiny networks against the exact posterior (7 sigma); scores of networks against the exact ratio of posterior averages; reconstructions checked for nodes, number of links, symmetry and simplicity; input compared with a copy and the simulated heap empty afterwards.", "Complete, empty, sparse networks; target networks with the same or other links in another node order; prior strength, burn-in, thinning, verbosity.", "The leak and the exchange of links that were never chosen showed on complete and empty networks only.")
D["P22"] = ("Paired runs that differ only in the rating of a queried pair (or its absence) must give identical scores; the ratings and queries are compared with a copy after the run; the unobserved set against its definition.", "Repeated, observed, unobserved and unseen queries.", "")
D["P23"] = ("Every inference driver must return within a step budget and leave no memory behind.", "Regular, empty, complete, star, single-user networks; verbosity levels.", "")
D["P09"] = ("Histories of 15 kinds of operations (add, move, merge, compress, copy, soft and hard mapping, split by components, copy-and-continue, take out and put back, link removal inside and between groups, creation from marks or with equal sizes) against a label vector; after every operation the node lists, sizes, link counts and weights of every group and the marks of the nodes are recounted, and the network itself is compared with its specification. Queries are compared with their definitions. At the end the simulated heap must be empty.", "Weighted and unweighted networks, isolated nodes, empty groups, heap contents and layout, order of operations.", "A count that goes stale in one operation is read only by a later one; histories meet such pairs, tests do not.")
D["P10"] = ("Whole annealing runs: result against a recount, against every modularity reported on the error stream (and the reported running value against the reported recomputed one), backup file against the best reported value; splits against the group's nodes; netcarto_legacy's six output files parsed and recomputed.", "Initial placement, number of groups (also 0 and 1), cooling schedules including none and zero temperature, six draw kinds, six output modes, chunked input.", "The best grouping is lost only when the last temperatures end worse, which depends on the draws.")
D["P15"] = ("The network before and after: same nodes and degrees, no repeated or self link, links symmetric, weights kept for bipartite networks; for one switch, plain or bipartite, the result must be one of the legal switches (enumerated) and over many draws every legal switch must come up as often as it should (7 sigma); netrandomize's output file is parsed and compared with its input.", "Networks with none, one or many possible switches; draws at the extremes; number of iterations; step budget.", "The endless loop needed a network without a switch; the bipartite bias shows only over thousands of draws; the tests randomize nothing.")
D["P16"] = ("Histories of additions and removals against a link set; number of changes, survivors, symmetric counterpart; for a single choice the frequency of every eligible link or pair.", "Directed and undirected networks, extreme draws, more links asked for than exist.", "")
D["P17"] = ("Structure recounted for every draw kind; frequencies of links, colours, team sizes and preferential choices against the model's probabilities with fair draws (7 sigma plus a discreteness allowance); modularbipart's file parsed.", "Parameters at their edges (0, 1, one node, one group), draws 0 and just below 1.", "Both generator defects found needed the draw 0 or a self-draw.")
D["P18"] = ("Reference networks (label to weighted neighbour map) updated along; after every operation the whole structure - lists, numbers, references, labels, weights, counts - is compared with the reference for the network and all its copies.", "Order of operations, weights, heap contents, layout and reuse.", "")
D["P24"] = ("Reference containers (vector, deque, ordered set) compared after every operation, the tree also for its depth and for the number of comparisons of a search; tables against lgamma/log and exact Pascal rows; line counts against the generated text for every chunking.", "Operation order, table sizes and indices around the end, chunked reads, stack and heap fill.", "")
D["P30"] = ("Breadth-first distances, path counts, components, clustering, correlations and Jacobi eigenvalues computed from the reference network after each step; network compared with its reference after each measure; heap block count before and after.", "Histories of changes and measures, leftover marks in the nodes, stack and heap contents.", "Leftover marks and leaks need a second measure on the same network.")
D["P19"] = ("A reference meaning of a text (list of records to network, with every switch) and of a partition file; the network read is compared with it node by node; written text is parsed and compared, then read back. For a broken line, a read error at a byte, or a cut file, no network may come out, and the simulated heap must be empty.", "Contents, blanks, number formats, missing last newline, read chunking and buffer sizes, EIO at a byte, cut files, broken lines.", "The read error taken for the end of the file and the endless loop on a cut partition were found this way.")
D["P20"] = ("One integration step and the energies against an O(N^2) pair sum; whole layouts: coordinates finite, in the unit square, spanning it, components kept apart, step budget, network unchanged, stdout empty; one and two boxes per side must agree; layouts of connected networks with up to 5 boxes per side against an independent integration of the same equations of motion (the start is shown by a layout without steps, and drawn so that scaling does not change it; runs where a start 1e-9 away leads elsewhere are not judged); two cliques must end separated; netlayout and multinetlayout as programs.", "Start positions and velocities, draws of three kinds, boxes, steps, drag, time step, piece counts and sizes, heap contents.", "Several layouts (flat, without extent, many pieces) divided by zero or lost nodes only for some draws.")
D["P25"] = ("Whole programs on the simulated disk; each printed value against a computation from the generated records (distances, betweenness, components, clustering, Jacobi eigenvalues, information, bipartite modularity).", "Records with odd blanks and repeated links, read chunking, heap and stack contents.", "netprop kept more components than its list could hold: visible only with at least a certain number of pieces.")
D["P26"] = ("Whole programs (fifteen) on small inputs (up to 7 nodes, 4+4 and 6 ratings; nearly complete networks, hubs); listed pairs against the set they must be, scores against the posterior average over all groupings (enumerated), sums over ratings, repeated queries.", "Fair random streams, long input paths, read chunking, heap and stack contents.", "Names of score files overflowed their buffers for long paths.")
D["P27"] = ("Every program but netcarto with one fault: missing argument, missing file, malformed line, EIO at a byte read, failing open, full disk or EIO at a byte written, failing close, failing allocation (dying is accepted, a wrong success is not). Status must be non-zero; a claimed success must pass the checks of P10, P15, P17, P20, P25, P26.", "All listed faults at random positions, of the whole disk or of one output file only, lasting or gone at the next write; short reads, heap and stack contents.", "Most programs crashed on a missing file and reported success on a full disk before the fixes.")
D["P28"] = ("Repeated annealing with fair draws until it reaches the maximum over all groupings into the modules allowed (enumerated up to 7 nodes), or the best of hill climbing from six starts (8-12 nodes); at most 60 attempts, more than 10 were needed in fewer than 1 of 10000 calibration runs; no result may exceed the enumerated maximum. On rings of cliques (12-35 nodes) the grouping into cliques has to be reached within 3 annealings (12 without collective moves).", "Fair random streams only; networks, module limits, cooling factors, with and without collective moves; heap contents.", "A wrong acceptance rule returns valid, consistent, but bad groupings: nothing but the quality over many runs tells.")
