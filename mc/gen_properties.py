import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=["pointpats/"+f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    P.append(d)

p("C01","A pattern's summaries depend only on its points, marks and current window",
 "After any sequence of queries, window replacements, mark additions and derivations (explode, unique, superimpose), every summary a PointPattern reports (size, bounding box, hull, areas, intensities over box, hull and window, rule-of-thumb range, membership, nearest-neighbour summaries) equals that of a freshly built pattern with the same points, marks and current window. Deriving a pattern, or changing one, never changes another pattern or the data and names passed in.",
 ["histories"],"all histories of public PointPattern operations up to a depth, from several start patterns",
 "the tests query each attribute once, right after construction; nothing interleaves window replacement, marks and cached queries",
 ["pointpattern.py","util.py"],[("memoised properties","pointpats/util.py cached_property"),("window setter and derived patterns","pointpats/pointpattern.py PointPattern")],
 ["attributes and methods of PointPattern"],[("_cache","per-object memo of derived quantities","pointpats/util.py")])
p("C02","Neighbour queries are exact and never return the point itself",
 "For every pattern and k, knn(k) gives for each point k other points of the pattern at the k smallest distances in ascending order, with matching distances and never the point itself, even when points coincide; nnd and the min, mean and max nearest-neighbour distance follow from knn(1). knn_other(other, k) gives for each query point (from a pattern or a list) the k nearest pattern points, and find_pairs(r) is exactly the set of index pairs (i<j) at distance at most r. The same holds of geometry.k_neighbors on the tree that geometry.build_best_tree makes for a metric, by that metric.",
 ["inputs"],"all small lattice point sequences (with coincident points and ties), all k, radii and query sets, plus larger structured patterns",
 "one 12-point pattern in general position is tested; coincident points, ties and other k are not",
 ["pointpattern.py","geometry.py"],[("tree queries","pointpats/pointpattern.py knn, knn_other, find_pairs, nnd"),("distance trees","pointpats/geometry.py build_best_tree, k_neighbors")],["return values of knn, knn_other, find_pairs, nnd"])
p("C03","explode, unique and superimpose are exact set algebra on marked points",
 "explode(mark) partitions a pattern into one pattern per distinct value of the mark, in ascending order, each holding exactly the rows with that value, in order and with all their attributes; unique() keeps the first of each set of identical rows and the window; superimpose() holds the distinct rows of both patterns in order and raises TypeError when attribute or coordinate names differ. add_marks adds exactly the given columns, and attribute names, coordinate columns and membership tests follow the names given to the constructor.",
 ["inputs","histories"],"all small marked patterns over a point and mark alphabet, all pairs of them, and all name/coordinate-name layouts",
 "tests use single examples with one layout of columns",
 ["pointpattern.py"],[("derivations","pointpats/pointpattern.py explode, unique, superimpose, add_marks, __init__, __contains__")],["df, points, coord_names, window of the results"])
p("C04","Concurrent use gives the same results as sequential use",
 "Under every interleaving of threads that read attributes of one shared point pattern, each read returns the value it has sequentially and none fails. A Ripley test gives the same statistic, simulations and p-values (in the same order) whatever the number of workers and however the simulations' executions interleave, given the random stream of each simulation.",
 ["schedules"],"all thread schedules up to a preemption bound, on the real code, at line granularity; all completion orders of simulation tasks",
 "tests are single threaded and let joblib schedule freely",
 ["util.py","pointpattern.py","distance_statistics.py","geometry.py"],[("lazy memo","pointpats/util.py cached_property"),("parallel simulations","pointpats/distance_statistics.py _ripley_test, _run_one_ripley_simulation")],["attribute values per thread","result tuples of *_test"],[("_cache","memo shared by threads","pointpats/util.py")])
p("C05","A region means the same thing in every representation",
 "A region has the same area, bounding box and containment whether given as a bounding-box array, shapely polygon, multipolygon or scipy ConvexHull (the centroid agrees for boxes and shapely geometries, and is the mean of the hull's vertices for a ConvexHull); area, box and containment account for holes and multiple parts. as_window, poly_from_bbox and Window keep the parts and holes of a polygon, filter_contained keeps exactly the contained points in order, and to_ccf closes an open ring and leaves a closed one as it is.",
 ["inputs"],"all small lattice boxes, convex hulls, polygons with holes and multipolygons, times all probe points of a finer lattice off the boundary",
 "no test covers the region helpers; windows only with one example",
 ["geometry.py","window.py"],[("dispatch per region type","pointpats/geometry.py area, bbox, contains, centroid, prepare_hull"),("windows","pointpats/window.py")],["return values of geometry.area, bbox, contains, centroid, prepare_hull; Window.area, bbox, contains_point"])
p("C06","Enclosing shapes contain every point and are minimal",
 "minimum_bounding_rectangle is the tight axis-aligned box; hull is the convex hull with its extreme points only, in counterclockwise order; minimum_rotated_rectangle is a rectangle that contains every point and has the least area of any such rectangle, with an angle in [0, 90) that is the direction of a side; minimum_bounding_circle contains every point and has the least radius of any such circle. This holds for every set of points that are not collinear, with or without numba, for arrays, sequences and geopandas input alike.",
 ["inputs","configurations"],"all small lattice subsets, several scales and offsets, with and without the compiled path",
 "tests run one 12-point example per function and only the compiled path",
 ["centrography.py"],[("Skyum circle","pointpats/centrography.py minimum_bounding_circle, _skyum_numba, _skyum_lists, _circle, _angle"),("hull and rectangles","pointpats/centrography.py hull, minimum_bounding_rectangle, minimum_rotated_rectangle")],["returned shapes"])
p("C07","Centres and dispersion equal their definitions",
 "mean_center, weighted_mean_center and manhattan_median are the coordinatewise mean, weighted mean and median; std_distance is the root mean squared distance to the mean centre; dtot(c, points) is the sum of distances to c and euclidean_median attains its minimum (to the accuracy of a numerical optimiser). All of them move with the pattern under translation and scaling, and do not depend on the order of the points.",
 ["inputs"],"all small lattice multisets with all small weight vectors, several scales and large offsets, permutations of the order",
 "tests use one example; cancellation, coincident points, medians at data points are not reached",
 ["centrography.py"],[("centres","pointpats/centrography.py mean_center, weighted_mean_center, manhattan_median, euclidean_median, dtot"),("dispersion","pointpats/centrography.py std_distance")],["return values"])
p("C08","The standard deviational ellipse has the principal axes of the points",
 "ellipse returns (major, minor, angle): the axes are the square roots of the eigenvalues of the (weighted) covariance of the points times the documented correction for the method (crimestat: sqrt(2n/(n-2)); yuill: sqrt(2) if crimestatCorr and sqrt(n/(n-2)) if degfreedCorr), major >= minor, and the angle is the direction of the major axis from the x axis. For geopandas input it is a polygon centred at the (weighted) mean centre with these semi-axes and that orientation, and unit weights are the same as no weights.",
 ["inputs","configurations"],"all small lattice subsets with all small weight vectors, all methods and correction flags",
 "tests check a handful of fixed patterns; degenerate orientations and weights are not enumerated",
 ["centrography.py"],[("ellipse","pointpats/centrography.py ellipse")],["returned axes, angle, polygon"])
p("C09","Ripley's F, G, J, K and L equal their definitions on every support",
 "g is the fraction of points whose nearest other point is within d, f the fraction of empty-space points whose nearest pattern point is within d, j = (1-g)/(1-f) (cut at its first undefined or infinite value when truncating), k = (bounding-box area / n) * 2 * #pairs closer than d / n, and l = sqrt(k/pi), minus d when linearized; fractions are of all points, and a distance exactly equal to d may fall on either side. This holds at every value of the support, whether it is given as a number of steps, (stop,), (start, stop), (start, stop, num) or an array, for every metric, and whether distances are computed or given (full matrix or vector).",
 ["inputs","configurations"],"all small lattice patterns times all support forms, metrics and distance forms",
 "no test in the suite calls these functions",
 ["distance_statistics.py","geometry.py"],[("statistics","pointpats/distance_statistics.py f, g, j, k, l, _prepare, _truncate"),("trees","pointpats/geometry.py build_best_tree, k_neighbors")],["returned support and statistic"])
p("C10","Ripley tests compare the pattern with exactly n simulations of its own size",
 "Each *_test returns the statistic of the observed pattern on its support (for f and j with empty-space points drawn over the hull), and with keep_simulations an (n_simulations, len(support)) array whose rows are the same statistic of patterns of as many points drawn in the hull, evaluated on the same support, otherwise None. The p-value at each support value is (1 + min(#simulations >= observed, #simulations <= observed)) / (n_simulations + 1), NaN with a warning when no simulations are asked for; a truncated j_test cuts support, statistic, p-values and simulations at the same place and always returns a result.",
 ["inputs","configurations"],"all small lattice patterns times the five tests, hull types, simulation counts, keep/truncate/linearized flags and support forms",
 "no test in the suite calls these functions",
 ["distance_statistics.py"],[("test driver","pointpats/distance_statistics.py _ripley_test, _run_one_ripley_simulation, j_test, _truncate")],["fields of the result tuples"])
p("C11","Quadrat counts assign every point to exactly one cell that contains it",
 "For every pattern whose bounding box has positive width and height, RectangleM and HexagonM counts sum to the number of points, each point being counted in a cell that contains it (points on a shared edge in either cell, none lost, none in a cell that does not touch them). The cells are the num cells of the grid the parameters describe, anchored at the lower-left corner of the bounding box, and cover the bounding box.",
 ["inputs","configurations"],"all small patterns on lattices that hit cell interiors, edges and vertices, times grid shapes and cell sizes",
 "tests use a few patterns and mostly check shapes and totals",
 ["quadrat_statistics.py"],[("point location","pointpats/quadrat_statistics.py RectangleM.point_location_sta, HexagonM.point_location_sta"),("cells","pointpats/quadrat_statistics.py _iter_cells")],["point_location_sta(), cell polygons, num"])
p("C12","QStatistic is the chi-square test of the quadrat counts",
 "chi2 and chi2_pvalue are Pearson's chi-square statistic and p-value of the cell counts against equal counts, df is the number of cells minus one, and chi2_contrib lists each cell's (O-E)^2/E aligned with cell_ids and summing to chi2. With realizations the simulated patterns have as many points as the observed one and lie in the window, chi2_realizations holds one statistic per realization on a grid of the same shape (rectangles) or cell size (hexagons), chi2_r_pvalue = (#{simulated >= observed} + 1)/(realizations + 1), and every accepted kind of rng gives reproducible results.",
 ["inputs","configurations"],"all small lattice patterns times grids, realization counts, windows and rng kinds",
 "tests stub the simulator and check one or two examples",
 ["quadrat_statistics.py","random.py"],[("test","pointpats/quadrat_statistics.py QStatistic"),("simulation size","pointpats/random.py parse_size_and_intensity")],["attributes of QStatistic"])
p("C13","Simulated patterns have the requested size and lie inside the hull",
 "poisson, normal, cluster_poisson, cluster_normal and strauss return n_observations points for one replication as an (n, 2) array and (n_replications, n, 2) for several, with n given by size or by intensity times area of the hull (rounded down), and reject size tuples combined with an intensity. Every point lies in the hull, whatever the hull type (bounding box array, point array, polygon with holes, multipolygon, convex hull) and whatever values the random generator produces, and for poisson every part of the hull can be reached.",
 ["inputs","configurations"],"all size/intensity forms and hull types, times all sequences over a small alphabet of random values up to a bound (environment choices), then a fixed continuation",
 "tests check a unit square with one seed",
 ["random.py","geometry.py"],[("rejection sampling","pointpats/random.py poisson, normal, cluster_poisson, cluster_normal, strauss, _uniform_circle"),("sizes","pointpats/random.py parse_size_and_intensity")],["returned arrays"])
p("C14","Randomness comes only from the rng given, reproducibly",
 "A simulator or QStatistic called with the same integer seed, or with generators in the same state, gives identical results regardless of what was called before; replications within a call differ from each other, and two different seeds or successive draws from one generator differ. Functions that take an rng never read or change numpy's global random state, and those using the global state (spacetime tests and point processes) are reproducible from numpy.random.seed.",
 ["histories","configurations"],"all histories of random-consuming operations up to a depth interleaved before and after a seeded call, for every simulator",
 "tests repeat two seeded calls back to back for two simulators",
 ["random.py","quadrat_statistics.py","process.py","spacetime.py"],[("rng plumbing","pointpats/random.py rng arguments, pointpats/quadrat_statistics.py _coerce_rng")],["returned arrays","numpy global random state before and after"])
p("C15","Cluster and interaction parameters of simulators are respected",
 "cluster_poisson splits each replication into n_seeds consecutive blocks of nearly equal size whose first point is the seed and whose other points lie within that cluster's radius of it, with one radius for all, one per cluster (any sequence), or by default half the smallest distance between the seeds of that replication; cluster_normal has the same block structure and computes its default covariance for each replication. normal displaces points from the centre given (the centroid of the hull by default) with the covariance matrix given, one for all replications or one for each, or by default with half the larger side of the bounding box as standard deviation. Asking for more clusters than points raises an error; strauss returns the requested number of points for any hull area and any 0 < gamma <= 1, or raises RuntimeError.",
 ["inputs","configurations"],"all sizes, seed counts, radius forms and hulls in a small range, times random value choices",
 "tests only check the output shape for one configuration",
 ["random.py"],[("clusters","pointpats/random.py cluster_poisson, cluster_normal, _uniform_circle"),("Strauss sampler","pointpats/random.py strauss")],["returned arrays"])
p("C16","Point process classes deliver the realizations they announce, inside the window",
 "PoissonPointProcess and PoissonClusterPointProcess produce one realization per sample, keyed 0..samples-1, with exactly parameters[i]['n'] points (n when not conditioning; parents times children for a conditioned cluster process), all inside the window, as arrays of shape (n, 2) or, with asPP, as PointPatterns carrying that window. Cluster children lie within the radius of a parent, num_parents and children are as documented, and empty realizations are allowed.",
 ["inputs","configurations"],"all small n, samples, parents and flags for windows of several shapes, times random value choices (including zero counts)",
 "no test covers these classes",
 ["process.py"],[("draw loop","pointpats/process.py PointProcess.draw, realize, setup, runif_in_circle")],["realizations, parameters, num_parents, children"])
p("C17","Space-time neighbour counts and tables equal brute force",
 "For every set of events and thresholds, Knox, KnoxLocal, knox and modified_knox count as neighbours exactly the pairs of distinct events within delta in space and tau in time (inclusive), including coincident events: nst, the local nsti, and the observed table [[ST, S only], [T only, neither]] are exact and sum to n(n-1)/2, and the expected table is that of independence with the same margins. The Poisson p-value is one minus the Poisson distribution function at nst with the expected count as mean, and from_dataframe gives the same results as arrays and rejects geographic CRS, non-point geometries and non-numeric times.",
 ["inputs"],"all small event sets on a space-time lattice with ties and coincidences, all thresholds",
 "tests use one dataset and one threshold pair",
 ["spacetime.py"],[("counts","pointpats/spacetime.py _knox, _knox_local, knox, modified_knox, Knox, KnoxLocal")],["statistic_, nst, nsti, observed, expected, p_poisson"])
p("C18","Permutation inference relabels times over fixed locations and counts exactly",
 "With P permutations each simulated Knox, local Knox, knox, mantel, modified_knox and jacquez statistic is the statistic of the data with the times permuted, over all n! relabelings as the generator ranges over its outcomes, and for local Knox with the focal event's own time kept in place. Pseudo p-values are (1 + #{simulated >= observed})/(P + 1) (knox: the smaller tail), agree with the stored simulations, never are 0, and p_hypergeom is the exact probability of at least nsti neighbours under random relabeling of all times.",
 ["inputs","schedules"],"all n! outcomes of the random permutation for small event sets (the generator's answers are enumerated), all permutation counts in a small range",
 "tests fix one seed and compare p-values with stored numbers",
 ["spacetime.py"],[("permutation loops","pointpats/spacetime.py _knox, _knox_local, knox, mantel, jacquez, modified_knox, _shuffle_matrix")],["sim, sims, p_sim, p_sims, p_hypergeom, pvalue"])
p("C19","Local Knox adjacency and hotspot tables are faithful",
 "KnoxLocal.adjlist lists each space-time neighbour pair once in each direction under the ids given, marked lead, lag or coincident as the focal event is earlier, later or simultaneous. hotspots(crit) contains exactly the events with p-value at most crit of the chosen inference and, with keep_neighbors, their space-time neighbours, each once with its own time, p-value and location, and puts two events in the same cluster exactly when they are connected through neighbour pairs that involve a significant event.",
 ["inputs","configurations"],"all small event sets on a space-time lattice, id labelings, critical values, inference kinds and flags",
 "tests check only the shape of two tables on one dataset",
 ["spacetime.py"],[("adjacency","pointpats/spacetime.py _knox_local, KnoxLocal.adjlist"),("hotspots","pointpats/spacetime.py KnoxLocal.hotspots")],["adjlist, hotspots()"])
p("C20","Mantel, Jacquez and modified Knox statistics equal their definitions",
 "mantel is the Pearson correlation over all pairs of events of (spatial distance + scon)^spow and (temporal distance + tcon)^tpow; jacquez(k) is the number of ordered pairs (i, j) with j among the k nearest neighbours of i in both space and time; modified_knox is the number of space-time close pairs minus its expectation sum_i S_i T_i / (2(n-1)), where S_i and T_i count i's spatial and temporal neighbours. Without permutations the statistic alone is returned, and the statistics do not change when the events are reordered.",
 ["inputs"],"all small event sets on a space-time lattice times thresholds, constants, powers and k",
 "tests use one dataset and one parameter set each",
 ["spacetime.py"],[("statistics","pointpats/spacetime.py mantel, jacquez, modified_knox")],["returned stat"])
p("C21","SpaceTimeEvents holds exactly the events of the file it is given",
 "SpaceTimeEvents(path, column) holds, in file order, the coordinates of every point of that shapefile and the values of that column of the attribute table beside it (whatever the directory or file name), with shapes (n,1), (n,1), (n,2), (n,1) and (n,2) for x, y, space, t and time and a column of ones as second column of time. With infer_timestamp, dates become whole days since the earliest date; numeric columns are taken as they are.",
 ["inputs"],"all small shapefiles over a coordinate, time and date alphabet in several directories and names, including names that collide with installed examples",
 "tests open one example shipped with libpysal",
 ["spacetime.py"],[("reader","pointpats/spacetime.py SpaceTimeEvents.__init__")],["attributes of SpaceTimeEvents"])
p("C22","Calls leave their inputs and each other alone",
 "No public function or method modifies the arrays, lists, frames or geometries passed to it. Deterministic ones return the same value when called again and whatever other public functions were called in between, and leave numpy's global random state untouched.",
 ["histories"],"all histories f g f of public operations on shared inputs",
 "tests use fresh inputs for each call and never look at them afterwards",
 ["centrography.py","pointpattern.py","spacetime.py","distance_statistics.py","quadrat_statistics.py","geometry.py","kde.py","random.py"],[("in-place work on arguments","all public functions")],["inputs before and after, return values"])
p("C23","Results do not depend on how the same points are handed over",
 "The same points given as list, tuple list, integer or float array in any memory layout (C, Fortran, strided or read-only), GeoSeries, GeoDataFrame (with any index or geometry column name) or, where accepted, PointPattern or search tree give the same results from every function that accepts them; geopandas input to centrography gives the shapely geometry equal to the array result. The results do not depend on the order of the points except for outputs listed per point.",
 ["inputs","configurations"],"all small lattice patterns times all representations times all functions that accept them",
 "tests check geopandas equivalence on one example for some functions",
 ["centrography.py","distance_statistics.py","quadrat_statistics.py","spacetime.py","kde.py"],[("dispatch on input type","pointpats/centrography.py singledispatch registrations, pointpats/distance_statistics.py _prepare, pointpats/quadrat_statistics.py _as_points_array")],["return values"])
p("C24","plot_density draws the kernel density of the points on its grid",
 "The surface plot_density draws is the Gaussian product kernel density with the given bandwidth evaluated at each grid node (the KDEpy estimate on its own grid when a kernel is named), with x along columns and y along rows. The grid spans the data extent widened by margin times its width and height with the requested resolution (one number or an (x, y) pair, 100 by default), points may be an array, GeoSeries or GeoDataFrame of points or multipoints, other geometries are refused, and the axes given are used and returned (with the contour set on request).",
 ["inputs","configurations"],"all small lattice patterns times bandwidths, margins, resolutions, kernels, fill and input kinds, with recording axes",
 "tests compare images for a few calls",
 ["kde.py"],[("grid and evaluation","pointpats/kde.py plot_density")],["x, y, z passed to contour/contourf; returned axes"])
p("C25","Plots of patterns and hotspot maps show what was computed",
 "PointPattern.plot draws every point once at its coordinates, the window and hull when asked, with the title, and returns the axes on request; after flip_coordinates it draws them with x and y exchanged, and nothing else about the pattern changes. KnoxLocal.plot and KnoxLocal.explore draw every event once, at its location, as significant (p-value at most crit of the chosen inference), as space-time neighbour of a significant event, or as neither, in the colours given for those classes, and with plot_edges exactly the space-time neighbour pairs that involve a significant event. The identifier, time, p-value and neighbours that the map tells of an event are its own. The axes and styling given are used, and an unknown inference is refused.",
 ["inputs","configurations"],"all event sets of bounded size on a space-time lattice times critical values, inference kinds and styling options, with recording axes and maps",
 "tests only call the plotting methods or compare one image",
 ["pointpattern.py","spacetime.py"],[("pattern plot","pointpats/pointpattern.py PointPattern.plot"),("hotspot maps","pointpats/spacetime.py KnoxLocal.plot, KnoxLocal.explore")],["artists drawn on the axes, layers of the map"])
p("C26","Quadrat plots label every cell with its own count or contribution",
 "RectangleM.plot, HexagonM.plot and QStatistic.plot draw every point once, the boundary of the window, and each quadrat of the tiling once with the right shape and place; each cell carries one label at its centre, the number of points of the pattern in that cell, so that the labels sum to n. With show=chi2 QStatistic.plot colours and labels each cell with its own contribution (O-E)^2/E to chi2 and adds a colour bar; titles are used, and a bad show value or contributions that do not match the cells raise ValueError.",
 ["inputs","configurations"],"all small lattice patterns times grid shapes, hexagon sizes, windows and options, with recording axes",
 "tests only call the plotting methods or compare one image",
 ["quadrat_statistics.py"],[("rectangles","pointpats/quadrat_statistics.py RectangleM.plot"),("hexagons","pointpats/quadrat_statistics.py HexagonM.plot"),("chi2 map","pointpats/quadrat_statistics.py QStatistic.plot")],["patches, texts and collections on the axes"])
p("C27","Requests that cannot be served are refused, and a refusal changes nothing",
 "A malformed request raises instead of being answered: k < 1 neighbours, superimposing differently named patterns, any edge_correction, metric precomputed without distances, an unknown or non-callable metric, distances or weights that do not match the points, unknown hulls, ellipse methods, quadrat shapes or inferences, a size that is no int or pair or that conflicts with an intensity, a cov of wrong type or shape, more seeds than points, empty, non-point or wrongly shaped coordinates, times or ids of another length, geographic frames, non-numeric times. A refusal leaves arguments and patterns as they were, so the valid call still gives its result, and neighbouring valid requests are served.",
 ["inputs","histories"],"all single faults and all pairs of faults of every call on several patterns, in histories valid, refused, valid",
 "tests try one bad value for a few of these",
 ["distance_statistics.py","geometry.py","random.py","spacetime.py","quadrat_statistics.py","centrography.py","pointpattern.py","kde.py"],[("argument checks","pointpats/distance_statistics.py _prepare, f, g, k; geometry.py prepare_hull, build_best_tree; random.py parse_size_and_intensity, normal; spacetime.py KnoxLocal, _spacetime_points_to_arrays"),("input normalisation","pointpats/quadrat_statistics.py _as_points_array; kde.py plot_density")],["exceptions raised, arguments afterwards"])
p("C28","Copies and pickles are equivalent to the original and independent of it",
 "A PointPattern, window, Knox or KnoxLocal, quadrat object, QStatistic, Ripley test result or point process can at any moment, whatever was computed or changed before, be deep-copied or pickled (any protocol, also into another process); the copy gives the same results as the original. What is then done to a deep copy or unpickled object (window replaced, marks added, queries) never changes the original, nor the reverse, and has the same effect as it would have had on the original. A shallow copy gives the same results.",
 ["histories"],"all histories of a few operations, a copy of every kind, and a change on either side, for every kind of object",
 "no test copies or pickles anything",
 ["pointpattern.py","util.py","window.py","spacetime.py","quadrat_statistics.py","process.py","distance_statistics.py"],[("cached attributes","pointpats/util.py cached_property"),("state of patterns","pointpats/pointpattern.py PointPattern.__init__, set_window, add_marks"),("result types","pointpats/distance_statistics.py FtestResult ... LtestResult")],["all public attributes and methods of both objects"])
p("C29","Results follow the symmetries of the data",
 "Measuring the same events in another unit of length or time, from another origin, with the axes exchanged or reversed, with weights in another unit, or listing them in another order changes no conclusion: locations (centres, hull, boxes, circles) move with the points, lengths, areas and intensities scale with the unit, directions turn, and whatever has no unit stays the same (fractions, g, f, j, quadrat counts and chi2 on the transformed grid, who neighbours whom, Knox, Mantel, Jacquez and modified Knox statistics, p-values, adjacency and clusters under the same identifiers) when thresholds and supports are converted as well.",
 ["inputs"],"all small lattice patterns and generic ones times exact symmetries (orders, the eight orientations, power-of-two units, far origins, time units and origins)",
 "every test uses one data set in one unit with one origin",
 ["centrography.py","pointpattern.py","geometry.py","window.py","distance_statistics.py","quadrat_statistics.py","spacetime.py"],[("centrography","pointpats/centrography.py"),("neighbour queries and summaries","pointpats/pointpattern.py"),("distance statistics","pointpats/distance_statistics.py f, g, j, k, l"),("quadrats","pointpats/quadrat_statistics.py"),("space-time statistics","pointpats/spacetime.py")],["return values of every statistic on the data and on their transform"])
p("C30","Random draws follow the announced distributions",
 "Over all equally likely answers of the generator, poisson and PoissonPointProcess place every point uniformly over the region (each part of it in proportion to its area) and independently of the other points; seeds and parents of clusters are uniform over the region and differ from cluster to cluster, and their children are uniform over the disc of the cluster's radius; normal and cluster_normal displace points normally about the centre, in every direction alike for a scalar variance. With conditioning the number of events or parents is Poisson with the mean given, a batch cut to size keeps its points without preference, and strauss accepts a point within r of another gamma times as often as one away from all.",
 ["schedules","inputs"],"a lattice of equally likely generator answers for every simulator, region and parameter, the whole distribution of outcomes",
 "tests draw one seeded sample and look at its size",
 ["random.py","process.py"],[("uniform points in a hull","pointpats/random.py poisson"),("discs","pointpats/random.py _uniform_circle; process.py runif_in_circle"),("clusters","pointpats/random.py cluster_poisson, cluster_normal; process.py PoissonClusterPointProcess.realize"),("interaction","pointpats/random.py strauss"),("conditioning","pointpats/process.py setup")],["coordinates of simulated points over all answers"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(d)+"\n" for d in P))
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P:
    jsonschema.validate(d,S); 
    assert len(d['title'])<=80,(d['id'],len(d['title']))
print(len(P))
