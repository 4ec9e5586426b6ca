#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
TESTS = ("tests/test_volume.py and tests/test_molecule.py draw random samples for the algebraic primitives and the "
         "molecule container only; ")
def p(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
I = ["inputs"]; H = ["inputs", "histories"]; CF = ["inputs", "configurations"]

p("C01", "Surface interior tests decide the documented region exactly",
  "A point is reported interior to a sphere exactly when its distance from the center is below radius plus tolerance, to a plane exactly when its signed distance along the normal from the plane's point is below the tolerance, and to a cylinder exactly when both its distance from the axis and its distance along the axis from the mid-point are below radius and half length plus tolerance. This holds for every point of a batch of any size, whatever length the direction vectors were given with, and testing points changes neither the surface nor the points.",
  I, "all centers, radii, directions (of any non-zero length), lengths, tolerances and all finite batches of points",
  TESTS + "they sample batches of random points and never the quantifier over all shapes, directions and batch sizes",
  ["czone/volume/algebraic.py"],
  [("Sphere/Plane/Cylinder.checkIfInterior", "czone/volume/algebraic.py"), ("normalising setters", "czone/volume/algebraic.py")])

p("C02", "Plane distances, projections and flips agree with geometry",
  "The signed distance of a point from a plane is positive on the outer side, negative on the inner side and of magnitude equal to the Euclidean distance to the plane, and the unsigned distance is its magnitude. The projection of a point, given alone or in a batch, lies on the plane and differs from the point by a multiple of the normal of exactly that distance. Flipping a plane negates its normal and signed distances and keeps it the same set of points.",
  I, "all planes and all points or batches of points",
  TESTS + "projection is only tested for batches and only through its distance being zero, the side and direction never",
  ["czone/volume/algebraic.py"],
  [("Plane.sdist_from_plane/dist_from_plane/project_point/flip_orientation", "czone/volume/algebraic.py")])

p("C03", "Volumes are intersections and composite volumes are unions",
  "A point is inside a simple volume exactly when it is inside the convex hull of its points, if any were given, and inside every one of its surfaces; it is inside a composite volume exactly when it is inside at least one member. The verdict for each point depends on that point alone: not on the rest of the batch, not on the order of surfaces or members, and a single point is treated as a batch of one. Surfaces handed to a volume are taken over unchanged.",
  I, "all numbers and kinds of surfaces, all hulls, all nestings and numbers of members, all batches of points",
  TESTS + "no test builds a volume at all",
  ["czone/volume/volume.py"],
  [("Volume.checkIfInterior", "czone/volume/volume.py"), ("MultiVolume.checkIfInterior", "czone/volume/volume.py"), ("Volume.add_alg_object", "czone/volume/volume.py")])

p("C04", "Scenes resolve overlaps by precedence",
  "After populating a scene, an atom contributed by an object appears in the scene's atoms exactly when it lies inside no other object whose priority number is lower or equal, whatever order the objects were added in. Every atom shown is one supplied by one of the objects, appears once per supplied atom and keeps its own atomic number at the same position in the list of species. The number of atoms and of species always agree.",
  ["inputs", "configurations", "histories"], "all numbers of objects, all priority assignments with any ties, all insertion orders, all atoms and regions",
  TESTS + "no test populates a scene",
  ["czone/scene/scene.py"],
  [("Scene.populate", "czone/scene/scene.py"), ("Scene._get_priorities", "czone/scene/scene.py"), ("Scene.all_atoms/all_species", "czone/scene/scene.py")])

p("C05", "Composite volumes resolve overlaps between members by precedence",
  "After populating a composite volume, an atom supplied by a member is kept exactly when it lies inside no other member whose priority number is lower or equal, whatever the order of the members. Atoms and species of the composite volume are those kept atoms, each with its own atomic number at the same position. Composite volumes nest: a member that is itself composite takes part with its own resolved atoms and with the union of its regions.",
  ["inputs", "configurations"], "all numbers of members, priorities with any ties, orders and nestings",
  TESTS + "no test builds a composite volume",
  ["czone/volume/volume.py"],
  [("MultiVolume.populate_atoms", "czone/volume/volume.py"), ("MultiVolume._get_priorities", "czone/volume/volume.py")])

p("C06", "Populating a volume keeps exactly the supplied atoms that lie inside",
  "After a volume is populated its atoms are exactly those atoms its generator supplies for the volume's bounding region that lie inside the volume, in the supplied order and without repetition. Each kept atom keeps its atomic number at the same index. Populating changes neither region, generator nor priority, and repeating it with a deterministic generator gives the same atoms.",
  H, "all generators, all regions, all supplied batches",
  TESTS + "no test populates a volume",
  ["czone/volume/volume.py"],
  [("Volume.populate_atoms", "czone/volume/volume.py"), ("Volume.get_bounding_box", "czone/volume/volume.py")])

p("C07", "Crystals are filled completely, correctly and without duplicates",
  "For any bounding set of points, a crystal generator supplies every lattice translate of every atom of its unit cell that lies in the convex hull of that set, exactly once and with the atomic number of that atom. Everything it supplies lies on such a translate: origin plus an integer combination of the cell vectors plus the atom's fractional coordinates times the cell vectors. The cell vectors are those of the attached crystal structure in its own orientation, for orthogonal and non-orthogonal cells alike, wherever the fractional coordinates lie.",
  I, "all cells (any angles), all bases of atoms, all origins and orientations, all bounding sets",
  TESTS + "no test attaches a crystal structure",
  ["czone/generator/generator.py", "czone/volume/voxel.py"],
  [("Generator.supply_atoms", "czone/generator/generator.py"), ("Voxel.get_extents", "czone/volume/voxel.py"), ("Generator.structure setter", "czone/generator/generator.py")])

p("C08", "Transforming a crystal moves every atom it supplies by that transformation",
  "Applying a translation, rotation, reflection, inversion, general linear map or any sequence of them to a crystal generator maps each lattice site to the image of that site under the transformation, keeping its atomic number; with the basis-only option the lattice is reoriented about its unchanged origin. Transforming a volume with a joint transformation moves its region and its generator by the same map, while an unjoint one moves only the region. A transformed composite volume transforms every member this way.",
  ["inputs", "histories"], "all transformations and finite sequences of them, all cells, origins and sites, joint or not",
  TESTS + "no test transforms a generator or a volume",
  ["czone/generator/generator.py", "czone/transform/transform.py", "czone/volume/volume.py"],
  [("Generator.transform", "czone/generator/generator.py"), ("applyTransformation_bases", "czone/transform/transform.py"), ("Volume.transform", "czone/volume/volume.py"), ("MultiVolume.transform", "czone/volume/volume.py")])

p("C09", "Regions move with their transformations",
  "A point is inside a sphere, plane or cylinder if and only if its image is inside the transformed surface, for every translation, rotation, reflection, inversion and finite sequence of them, with or without an origin. For planes this holds for every invertible linear map up to the scaling of the tolerance. Radii, lengths and tolerances are unchanged.",
  I, "all surfaces, all points, all isometries built from the provided transformations (planes: all invertible maps)",
  TESTS + "only a plane's unsigned distance under one rotation is sampled",
  ["czone/transform/transform.py", "czone/volume/algebraic.py"],
  [("Translation.applyTransformation_alg", "czone/transform/transform.py"), ("MatrixTransform.applyTransformation_alg", "czone/transform/transform.py"), ("MultiTransform.applyTransformation_alg", "czone/transform/transform.py")])

p("C10", "Transformations are the maps they claim to be",
  "A translation adds its vector; a matrix transformation with an origin keeps that origin fixed and applies its matrix to the displacement from it, for a single point or a batch; a sequence applies its members in order. An inversion maps a point to the opposite one; a reflection fixes every point of its plane, sends any other to the mirror point on the other side and undoes itself; constructing a rotation from a matrix that is not a proper rotation is refused. Points passed in are never modified.",
  I, "all transformations, points and batches",
  TESTS + "applying a rotation to points is used as a helper but no transformation is tested",
  ["czone/transform/transform.py"],
  [("applyTransformation of Translation/MatrixTransform/MultiTransform", "czone/transform/transform.py"), ("Rotation.matrix setter", "czone/transform/transform.py"), ("Reflection.plane setter", "czone/transform/transform.py")])

p("C11", "Rotation builders return proper rotations that do what was asked",
  "The rotation aligning one vector with another is a proper rotation that takes the direction of the first onto that of the second for every pair of non-zero vectors, including parallel and opposite ones. The rotation about an axis by an angle is a proper rotation that leaves the axis fixed and turns perpendicular vectors by that angle in the right-handed sense. The Euler builder composes turns about z, x and z in the documented order, and the set-alignment builder reproduces any rotation relating two vector sets of full rank.",
  I, "all vectors, angles and vector sets",
  TESTS + "the rotation builders are not tested",
  ["czone/transform/transform.py"],
  [("rot_vtv", "czone/transform/transform.py"), ("rot_v", "czone/transform/transform.py"), ("rot_zxz", "czone/transform/transform.py"), ("rot_align", "czone/transform/transform.py")])

p("C12", "Surface alignment brings two surfaces face to face",
  "The transformation that aligns a moving surface to a target surface is rigid, makes the moved normal opposite to the target normal and puts the moved surface onto the target surface. The moved reference point lands on the line through the target reference point along the target normal. The two surfaces and points passed in are left unchanged.",
  I, "all pairs of planes and all pairs of reference points",
  TESTS + "surface alignment is not tested",
  ["czone/transform/transform.py"], [("s2s_alignment", "czone/transform/transform.py")])

p("C13", "Bounding regions enclose the volume",
  "The bounding points computed for a volume have a convex hull containing every point of the volume's nominal region, for volumes bounded by a hull of points, a sphere, planes or a cylinder, alone or together with other surfaces. A rectangular prism has its corners at the given side lengths from the origin or about the given center. Planes without a common interior are reported as infeasible and planes enclosing a bounded region give that region's corners.",
  I, "all volumes with a bounded nominal region",
  TESTS + "the cylinder and plane boxes are sampled, volume level boxes never",
  ["czone/volume/volume.py", "czone/volume/algebraic.py"],
  [("Volume.get_bounding_box", "czone/volume/volume.py"), ("Cylinder.get_bounding_box", "czone/volume/algebraic.py"), ("get_bounding_box", "czone/volume/algebraic.py"), ("makeRectPrism", "czone/volume/volume.py")])

p("C14", "Planes snapped to a crystal are crystallographic planes of the asked family",
  "Snapping a plane with given Miller indices to a point returns a plane whose normal is the reciprocal lattice direction of those indices and which contains the points of the crystal's lattice frame whose indexed sum is an integer, taking the crystal's orientation, origin and homogeneous strain into account. In nearest mode no other plane of the family is closer to the point; in floor mode it is the next one towards the crystal's origin and in ceil mode the next one away from it, or the plane through the point itself. Asking for a plane changes nothing in the crystal.",
  I, "all cells, origins, strains, Miller indices and points",
  TESTS + "plane snapping is not tested",
  ["czone/volume/algebraic.py"], [("snap_plane_near_point", "czone/volume/algebraic.py"), ("round_away", "czone/util/misc.py")])

p("C15", "Copies are independent of their originals",
  "Objects made from existing generators, surfaces, volumes, composite volumes or molecules agree with the original in every property that was not asked to change. Nothing done later to the copy, including transforming it, changes the original, and the other way round. Adding a surface or a generator to a volume stores a copy, so later changes to the argument do not reach the volume.",
  ["inputs", "histories"], "all objects, all later sequences of changes",
  TESTS + "only molecule copies are compared right after copying",
  ["czone/volume/volume.py", "czone/volume/algebraic.py", "czone/generator/generator.py", "czone/molecule/molecule.py"],
  [("from_volume", "czone/volume/volume.py"), ("from_alg_object", "czone/volume/algebraic.py"), ("from_generator", "czone/generator/generator.py"), ("from_molecule", "czone/molecule/molecule.py"), ("add_alg_object/add_generator", "czone/volume/volume.py")])

p("C16", "Strain fields deform about their origin in the chosen frame",
  "A homogeneous strain maps every point to the origin of the strain plus its matrix applied to the displacement, expressed in Cartesian axes in standard mode and in the crystal's cell axes in crystal mode, so the origin stays fixed and the identity changes nothing. Three values give the diagonal, six the symmetric Voigt matrix and nine the full matrix; an inhomogeneous strain applies the user's function to the displacement in that same frame. A generator's strain uses the generator's current cell and, unless another origin was given, its current origin; unknown modes are refused.",
  I, "all strain matrices and functions, origins, cells, modes and batches of points",
  TESTS + "strain is not tested",
  ["czone/transform/strain.py", "czone/generator/generator.py"],
  [("HStrain.apply_strain", "czone/transform/strain.py"), ("HStrain.matrix", "czone/transform/strain.py"), ("IStrain.apply_strain", "czone/transform/strain.py"), ("BaseStrain.scrape_params", "czone/transform/strain.py")])

p("C17", "Post-generation chemistry changes only what it targets",
  "A chemical substitution leaves every position and every atom of a non-targeted element unchanged, and gives a targeted atom either its own or the paired substitute element, decided by the original elements and not by earlier replacements in the same pass; fraction one replaces every targeted atom and fraction zero none. It does not modify the arrays it is given and equal seeds give equal results. A sequence of post-transformations applies its members in order.",
  I, "all species arrays, target and substitute lists, fractions, seeds",
  TESTS + "post-transformations are not tested",
  ["czone/transform/post.py"],
  [("ChemicalSubstitution", "czone/transform/post.py"), ("PostSequence.apply_function", "czone/transform/post.py")])

p("C18", "Amorphous blocks respect minimum separation and density",
  "Every pair of atoms of a generated amorphous block is at least the minimum separation apart, measured with periodic images in x and y and without in z, whatever random numbers were drawn. The block contains the number of atoms given by its density times its volume, rounded, and all of them lie in the requested box. A generator for such material supplies them inside the bounding box it is asked to fill, all with its element, and reuses the previous block when told to.",
  ["inputs", "schedules"], "all box sizes, separations, densities and random streams",
  TESTS + "amorphous generation is not tested",
  ["czone/generator/amorphous_algorithms.py", "czone/generator/generator.py"],
  [("gen_p_substrate", "czone/generator/amorphous_algorithms.py"), ("get_voxels", "czone/generator/amorphous_algorithms.py"), ("get_p_dist", "czone/generator/amorphous_algorithms.py"), ("AmorphousGenerator.supply_atoms", "czone/generator/generator.py")])

p("C19", "Voxel neighbor lists match the grid with its periodic boundaries",
  "For a grid of any size and any choice of periodic axes, the neighbors listed for a voxel are exactly the voxels whose coordinates differ by at most one along each axis, with wrap-around along periodic axes only. The voxel itself is included and every listed index is a valid voxel. The relation is symmetric.",
  CF, "all grid sizes and all eight periodicity choices",
  TESTS + "neighbor lists are not tested",
  ["czone/util/measure.py", "czone/generator/amorphous_algorithms.py"],
  [("get_voxel_grid", "czone/util/measure.py"), ("get_voxels", "czone/generator/amorphous_algorithms.py")])

p("C20", "Random split positions keep their distance",
  "Whenever random split positions are returned, they are as many as asked for, sorted, at least the minimum separation away from both ends and pairwise at least that separation apart, for every random stream. A request that cannot be met by any placement is refused with an error rather than searched for forever. Equal seeds give equal results.",
  ["inputs", "schedules"], "all counts, separations, lengths and random streams",
  TESTS + "split selection is not tested",
  ["czone/util/misc.py"], [("get_N_splits", "czone/util/misc.py")])

p("C21", "Planar defect builders place well separated defects of the right kind",
  "For a crystal without a strain field, a built object with N planar defects consists of N+1 regions of the given volume cut by N crystallographic planes of the requested family that are separated by at least the minimum number of interplanar spacings, each region filled by the crystal obtained from the previous one by the defect operation of its plane. A twin is the mirror image in its plane; a stacking fault in a cubic crystal is a shift within the plane by a third of a lattice vector, so atoms away from defects keep the crystal's spacing. The volume and crystal given are unchanged, and the reported defect types say which kinds were placed.",
  ["inputs", "schedules"], "all volumes, crystals, defect counts, separations, ratios and random streams",
  TESTS + "prefabs are not tested",
  ["czone/prefab/prefab.py"],
  [("fccMixedTwinSF.build_object", "czone/prefab/prefab.py"), ("wurtziteStackingFault.build_object", "czone/prefab/prefab.py")])

p("C22", "Molecules keep atoms, species and tracked origin consistent",
  "A molecule always has one position per species; removing atoms removes exactly the given indices from both and keeps the order of the rest, and updates refuse arrays of another length without changing anything. A molecule whose origin tracks an atom reports that atom's position after every update, transformation and removal of other atoms, and refuses to remove that atom. Transforming a molecule moves every atom by the transformation, keeps the species and moves an untracked origin only when asked to.",
  H, "all molecules and all finite sequences of operations on them",
  TESTS + "single operations are sampled, tracked origins across removals and sequences never",
  ["czone/molecule/molecule.py"],
  [("BaseMolecule.remove_atoms", "czone/molecule/molecule.py"), ("BaseMolecule.transform", "czone/molecule/molecule.py"), ("BaseMolecule.origin", "czone/molecule/molecule.py"), ("update_positions/update_species", "czone/molecule/molecule.py")])

p("C23", "Alpha shapes report true circumradii and truly exposed atoms",
  "The circumradius computed for each tetrahedron of a batch is the radius of the sphere through its four corners, independent of corner order and of the other tetrahedra. Every atom reported to be on the surface is a corner of an exposed facet of a tetrahedron that passes the probe test, where exposed means on the outside of the triangulation or next to an outer tetrahedron that fails the test. Input positions are not modified.",
  I, "all non-degenerate tetrahedra and point sets, all probe radii and random streams",
  TESTS + "alpha shapes are not tested",
  ["czone/surface/alpha_shape.py"],
  [("tetrahedron_circumradii", "czone/surface/alpha_shape.py"), ("alpha_shape_alg_3D", "czone/surface/alpha_shape.py"), ("alpha_shape_alg_3D_with_sampling", "czone/surface/alpha_shape.py")])

p("C24", "Adsorbates are placed rigidly at the bond length from an allowed surface atom",
  "A placed adsorbate is a rigidly moved copy of the given molecule whose bonding atom lies at exactly the bond length from a surface atom that satisfies every given filter. The success flag is true exactly when none of its atoms lies inside the volume. The given molecule and the volume are unchanged, and the surface normal used is a unit vector.",
  ["inputs", "schedules"], "all molecules, volumes, filters, rotations, bond lengths and random streams",
  TESTS + "adsorbate placement is not tested",
  ["czone/surface/adsorbate.py"],
  [("add_adsorbate", "czone/surface/adsorbate.py"), ("find_approximate_normal", "czone/surface/adsorbate.py")])

p("C25", "Exports carry exactly the resolved atoms",
  "The atoms object of a scene, volume or molecule holds exactly its positions and atomic numbers in the same order, and that of a scene has a cell spanning the scene bounds. Writing a scene or volume writes exactly that atoms object to the named file, once, for every format and with every option passed on; the prismatic format adds one thermal factor for each element present and for no other. Exporting changes nothing.",
  CF, "all scenes, formats and options",
  TESTS + "only the atoms object of a molecule is compared",
  ["czone/scene/scene.py", "czone/volume/volume.py", "czone/molecule/molecule.py"],
  [("Scene.to_file/ase_atoms", "czone/scene/scene.py"), ("BaseVolume.to_file/ase_atoms", "czone/volume/volume.py"), ("BaseMolecule.ase_atoms", "czone/molecule/molecule.py")])

p("C26", "Single crystal equilibrium shapes are bounded by their facets",
  "The volume built for a single crystal equilibrium shape, free or on a substrate, contains a point exactly when the point lies on the inner side of every facet of the computed shape, each facet at its distance from the shape's center. It is filled by the given crystal. The convenience shapes are the ones of their documented surface families.",
  I, "all crystals, surface energy sets, sizes and interfaces",
  TESTS + "equilibrium shapes are not tested",
  ["czone/prefab/wulff.py"],
  [("WulffBase.planes_from_wulff", "czone/prefab/wulff.py"), ("WulffSingle.get_construction/winterbottom", "czone/prefab/wulff.py")])

p("C27", "Squared distances follow the minimum image convention",
  "The squared distance function made for any choice of periodic axes returns, for every pair of points within one cell, the smallest squared distance between any periodic images along those axes, and the plain squared distance without periodic axes. It is symmetric in its arguments and treats every pair of a batch independently. The distance function used to generate amorphous blocks agrees with it for periodicity in x and y.",
  CF, "all points, cells and periodicity choices",
  TESTS + "distance functions are not tested",
  ["czone/util/measure.py", "czone/generator/amorphous_algorithms.py"],
  [("get_sdist_fun", "czone/util/measure.py"), ("get_p_dist", "czone/generator/amorphous_algorithms.py"), ("get_p_dist_batch", "czone/generator/amorphous_algorithms.py")])

p("C28", "Twinned icosahedral and decahedral shapes can be built",
  "The constructions for five-fold twinned and icosahedral particles return composite volumes with one region per grain, each filled by the crystal rotated and strained for that grain. Together the grains fill the shape without overlaps.",
  I, "all FCC crystals, energies and sizes",
  TESTS + "equilibrium shapes are not tested",
  ["czone/prefab/wulff.py"],
  [("WulffDecahedron.get_construction", "czone/prefab/wulff.py"), ("WulffIcosahedron.get_construction", "czone/prefab/wulff.py")])

p("C29", "Radial distribution counts every pair within the cutoff once per atom",
  "The counts returned for a set of points and a cutoff are, per distance step, the number of ordered pairs of distinct points at that minimum image distance. The input points are not modified.",
  I, "all point sets, cutoffs and periodicity choices",
  TESTS + "the measurement is not tested",
  ["czone/util/measure.py"], [("calc_rdf", "czone/util/measure.py")])

ids = [x["id"] for x in P]
assert len(set(ids)) == len(ids)
for x in P:
    assert len(x["title"]) <= 80, x["title"]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
