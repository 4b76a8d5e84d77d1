import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))
X="xrd_simulator/"
p("C01","Every Laue crossing of the rotation is found, and none is invented",
 "For any beam, rigid rotation of the sample, crystal orientation and Miller indices, the diffraction events reported in time [0, 1] are exactly the times at which the rotated scattering vector satisfies the Laue condition |k + G(t)| = |k|. Each event carries the element, the Miller indices, the time and the unrotated and rotated G vectors of that very crossing, and both crossings of a reflection that crosses twice are reported.",
 ["inputs"],"all wave vectors, unit rotation axes, rotation angles in (0, pi), orientations, lattices and Miller indices; number and positions of the crossings in the interval",
 "The tests solve a handful of fixed rotations and check that some solution satisfies the equation; they never count the crossings against an independent solver, nor vary axis, angle, wavelength and lattice together.",
 [X+"laue.py",X+"polycrystal.py"],
 [("tangent half angle quadratic, both roots kept when in [0, 1]",X+"laue.py:_find_solutions_to_tangens_half_angle_equation"),("rho factors built from the Rodrigues matrices K and K2",X+"polycrystal.py:_compute_peaks"),("G = U B hkl",X+"laue.py:_get_G")],
 observe=["Polycrystal.diffract()['peaks'] columns 0-12","laue._find_solutions_to_tangens_half_angle_equation"])
p("C02","The set of diffracting planes is complete and within the Bragg window",
 "For any unit cell, space group, wavelength and Bragg angle window the Miller indices considered for a phase are exactly the integer triplets with a Bragg angle inside the window that are not systematically absent, each once, with all Friedel and symmetry mates present. Reflections whose structure factor is zero do not diffract, and widening the window only ever adds peaks to a diffraction pattern.",
 ["inputs","configurations"],"all unit cells, space groups, wavelengths and (min, max) Bragg windows, including windows that hold no reflection at all",
 "The tests check one quartz cell and one window and only that found angles are in range; completeness, absences, multiplicities, narrow or empty windows and other crystal systems are not covered.",
 [X+"phase.py",X+"polycrystal.py"],
 [("window converted to sin(theta)/lambda and enumerated with the space group extinctions",X+"phase.py:Phase._setup_diffracting_planes"),("vanishing structure factors are filtered out",X+"polycrystal.py:_compute_peaks")],
 observe=["Phase.miller_indices","Polycrystal.diffract()['peaks'] columns 2-4, 22"])
p("C03","Structure factors equal the crystallographic sum over the unit cell",
 "For any crystal structure given by a CIF file (space group, atoms, occupancies, isotropic or anisotropic displacements, dispersion) the structure factor of every Miller index equals the sum over all atoms and symmetry operations of form factor, dispersion, displacement factor and phase factor. Each value stays attached to its own Miller index, Friedel mates and symmetry equivalents are related as the space group demands, and the peak intensity column is the squared modulus of it.",
 ["inputs","configurations"],"all CIF contents the reader accepts and all Miller indices and unit cells",
 "Two fixed CIF files with isotropic atoms are compared with xfab in the tests; anisotropic displacements, partial occupancies, special positions, dispersion and general cells are never exercised.",
 [X+"structure_factors.py",X+"phase.py",X+"polycrystal.py"],
 [("batched accumulation over atoms, symmetry operations and reflections",X+"structure_factors.py:compute_structure_factors_batch"),("intensity = Re^2 + Im^2",X+"polycrystal.py:_compute_peaks")],
 observe=["Phase.structure_factors","peaks column 5"])
p("C04","Strain, orientation and unit cell give the physically strained lattice",
 "The reciprocal lattice of an element is that of its unit cell deformed by the given laboratory strain seen in the crystal frame: to first order each plane spacing changes by the strain along the plane normal, and the deformation gradient between strained and unstrained lattice reproduces the given strain exactly, so that converting back recovers it. Zero strain gives the unstrained lattice, elements do not affect each other, and a strain that would invert the lattice is rejected.",
 ["inputs"],"all symmetric strain tensors, orientations, unit cells and batch sizes",
 "The tests check a few small strains and diagonal cases; equality of the lattice metric for arbitrary strain, orientation and triclinic cells in batches is not sampled.",
 [X+"utils.py",X+"polycrystal.py"],
 [("crystal strain = U^T eps U, Cholesky factor of the metric",X+"utils.py:_lab_strain_to_B_matrix, _epsilon_to_b"),("inverse conversion",X+"utils.py:_b_to_epsilon"),("per phase and element B matrices",X+"polycrystal.py:_instantiate_eB")],
 observe=["Polycrystal.diffract() G0 columns","utils._b_to_epsilon"])
p("C05","Rigid body motions rotate and translate points exactly as defined",
 "At any time a rigid body motion maps a point to the rotation by the fraction of the angle about the axis through the origin of the motion followed by the fraction of the translation, for single points, lists of points, per point times and element vertex arrays alike. It preserves distances and handedness, is the identity at time zero, and its inverse undoes pure rotations and pure translations; rotate and translate apply only their own part.",
 ["inputs"],"all unit axes, angles in (0, pi), translations, origins, times and supported array shapes (3,), (N, 3), (N, M, 3) including N = 1 and N = 3",
 "The tests use a few fixed motions and shapes; agreement of all call forms with one reference rotation for arbitrary origin and per point time is not covered.",
 [X+"motion.py"],
 [("Rodrigues formula for one or many angles",X+"motion.py:_RodriguezRotator"),("centre, rotate, shift back, translate",X+"motion.py:RigidBodyMotion.__call__"),("negated axis and translation",X+"motion.py:RigidBodyMotion.inverse")],
 observe=["RigidBodyMotion.__call__, rotate, translate, inverse"])
p("C06","Beam containment and beam-grain intersection are geometrically exact",
 "A point is illuminated exactly when it is inside the convex hull of the beam vertices, and the intersection of the beam with a convex grain is exactly the common volume of the two solids: empty when they are disjoint, the grain itself when it is fully inside. Whatever the shapes, sizes and positions, the intersection is found without failure.",
 ["inputs"],"all convex beams and convex polyhedra, over several orders of magnitude of size and offset, including grazing and partial overlap",
 "The tests intersect a few axis-aligned boxes; general position, sliver overlaps and scale are not reached (the feasible point search failed on 1 % of random overlaps before it was repaired).",
 [X+"beam.py"],
 [("half space representation of the hull",X+"beam.py:Beam.set_beam_vertices"),("strict half space test",X+"beam.py:Beam._contains"),("half space intersection from an interior point",X+"beam.py:Beam._intersect, _find_feasible_point")],
 observe=["Beam._contains","Beam._intersect(...).volume"])
p("C07","Exactly the illuminated diffraction events enter the diffraction pattern",
 "Of all Laue crossings of all elements, a diffraction pattern holds exactly those whose source point, the bounding sphere centre of the element moved to the time of the event, is inside the beam. Enlarging the beam only adds peaks, and narrow or offset beams remove exactly the peaks of the elements they miss at that time.",
 ["inputs","configurations"],"all polycrystals, beams and motions, with elements entering and leaving the beam during the motion",
 "The tests illuminate the whole sample or check only that some peaks remain; the decision is never compared per peak with an independent containment test at the event time.",
 [X+"polycrystal.py",X+"beam.py",X+"motion.py"],
 [("source points moved to the event time",X+"polycrystal.py:_compute_peaks"),("peaks filtered by beam containment",X+"polycrystal.py:diffract")],
 observe=["Polycrystal.diffract()['peaks'] columns 0, 6, 16-18"])
p("C08","Every row of the peak table is self-consistent physics",
 "In every row the scattered wave vector is the incident one plus the rotated G vector with the same length, 2theta is the angle between them and obeys Bragg's law, and the element, phase, volume, source point and Miller indices belong together. The Lorentz, polarization and Scherrer factors are those of that row's geometry, rows are uniquely indexed, and the named columns match the data.",
 ["inputs","configurations"],"all diffraction patterns: zero, one or many peaks, one or several phases, any geometry",
 "The tests look at selected columns of one pattern; the cross-column relations, patterns with no or one peak and interleaved phases are not checked.",
 [X+"polycrystal.py",X+"scattering_factors.py"],
 [("assembly of the peak columns",X+"polycrystal.py:_compute_peaks, diffract"),("intensity factors",X+"scattering_factors.py:_lorentz, _polarization, _scherrer")],
 observe=["Polycrystal.diffract() result dictionary"])
p("C09","Diffraction obeys superposition and rigid frame invariance",
 "The diffraction of a polycrystal is the union of the diffraction of its elements: permuting, splitting or merging elements, phases and sub-intervals of the motion neither adds, removes nor alters peaks. Rotating the whole experiment, transforming the sample before diffracting, or describing the same crystal by an equivalent cell setting gives the correspondingly transformed peaks.",
 ["inputs","configurations","histories"],"all polycrystals with one or several phases, all partitions and permutations of the elements, all splittings of the rotation and all rigid frame changes",
 "Each test diffracts one fixed sample; metamorphic relations between diffraction runs are never evaluated.",
 [X+"polycrystal.py",X+"laue.py",X+"motion.py"],
 [("per phase vectorised solution with index maps back to elements",X+"polycrystal.py:_compute_peaks"),("sample transform of mesh, orientation and strain",X+"polycrystal.py:transform")],
 observe=["Polycrystal.diffract() before and after transform"])
p("C10","Mesh geometry stays consistent through every history of operations",
 "After any sequence of generation, update, translation, rotation, saving and loading, all derived quantities of a tetrahedral mesh (centroids, face normals, volumes, minimal bounding spheres, mesh centroid) are those of its current node coordinates, normals point outwards and have unit length, and the coordinates are the composition of the applied motions. The topology and the order of elements never change.",
 ["histories","inputs"],"all meshes and all finite sequences of update, translate, rotate, save and load",
 "The tests apply single operations to one ball mesh and compare a few fields; combined histories (in which a translation used to drop a preceding rotation) are not tested.",
 [X+"mesh.py",X+"utils.py"],
 [("derived quantities are recomputed",X+"mesh.py:TetraMesh._expand_mesh_data"),("motion of the nodes",X+"mesh.py:TetraMesh.update, translate, rotate"),("bounding spheres",X+"mesh.py:TetraMesh._compute_mesh_spheres")],
 state=[("coord","node coordinates",X+"mesh.py"),("enormals, ecentroids, eradius, espherecentroids, evolumes, centroid","derived geometry",X+"mesh.py")],
 observe=["TetraMesh attributes after each operation"])
p("C11","Generated meshes fill the described solid with valid elements",
 "A mesh generated from a level set or from vertices is a partition of the solid it describes: its elements have positive volume, share whole faces and do not overlap, its nodes lie inside or on the surface within the cell size, and its total volume approaches that of the solid. Meshes built from vertices keep the given nodes and elements as they are.",
 ["inputs","configurations"],"all smooth bounded level sets with a bounding radius and cell radius, all vertex and element arrays",
 "One ball is meshed in the tests, and only sphere-ness of its nodes is checked.",
 [X+"mesh.py"],
 [("pygalmesh/meshpy tetrahedralisation of the level set surface",X+"mesh.py:TetraMesh.generate_mesh_from_levelset"),("direct construction",X+"mesh.py:TetraMesh.generate_mesh_from_vertices")],
 observe=["TetraMesh.coord, enod, evolumes"])
p("C12","Sample and laboratory frames stay in step through every motion history",
 "After any sequence of transforms the laboratory mesh, orientations and strains are the composed rigid motion applied to the sample ones, while the sample frame quantities, the lattice deformation of each element and the element-phase assignment stay as constructed. Orientations remain proper rotations and the strain invariants are preserved.",
 ["histories","inputs"],"all finite sequences of transforms at arbitrary times, for scalar and per element orientations and strains",
 "The tests apply one transform; composition, drift, and fields that must not change are not covered.",
 [X+"polycrystal.py",X+"mesh.py",X+"motion.py"],
 [("update of mesh, orientation and strain in the lab frame",X+"polycrystal.py:Polycrystal.transform"),("deep copies of the mesh per frame",X+"polycrystal.py:Polycrystal.__init__")],
 state=[("orientation_lab, strain_lab, mesh_lab","moved with the sample",X+"polycrystal.py"),("orientation_sample, strain_sample, mesh_sample, _eB","fixed",X+"polycrystal.py")],
 observe=["Polycrystal attributes after each transform"])
p("C13","Rays hit the detector where geometry says, on an exact pixel grid",
 "For any placed detector, the hit position of a ray is the point where it meets the detector plane in detector coordinates, rays going away from the plane never hit, and the incidence angle is that between ray and normal. A hit is on the detector exactly when it is within its edges, the pixel grid has the requested number and size of pixels with coordinates at multiples of the pixel size from the first corner, and the wrapping cone is half the largest angle to a corner.",
 ["inputs","configurations"],"all detector placements, tilts, sizes and rectangular pixel sizes, all rays and source points",
 "The tests use one unrotated detector with 50 x 40 pixels and a few rays; tilted detectors, backward rays, non-square pixels by count or by size and edge hits are not sampled.",
 [X+"detector.py"],
 [("plane intersection",X+"detector.py:Detector._get_intersection"),("edge test",X+"detector.py:Detector.contains"),("pixel grid",X+"detector.py:Detector._get_pixel_coordinates"),("cone",X+"detector.py:Detector._get_wrapping_cone")],
 observe=["Detector.peaks_detector_intersection zd, yd, incident_angle","Detector.pixel_coordinates, contains"])
p("C14","Using a detector to bound the Bragg angles loses no detectable peak",
 "Diffracting with a detector gives the same peaks on that detector as diffracting with no angular limit when the sample is small compared to its distance, and the requested minimum and maximum Bragg angles are respected in either case. Only reflections that cannot reach the detector are skipped.",
 ["inputs","configurations"],"all forward detectors, samples, beams and requested Bragg windows (also None)",
 "The tests never compare a run with a detector to a run without one; a user given maximum was silently ignored before it was repaired.",
 [X+"polycrystal.py",X+"detector.py",X+"phase.py"],
 [("bounds from the wrapping cone",X+"polycrystal.py:_get_bragg_angle_bounds"),("cone opening over the four corners",X+"detector.py:_get_wrapping_cone")],
 observe=["Polycrystal.diffract(detector=...) followed by Detector.peaks_detector_intersection"])
p("C15","Each detected peak lands in exactly one frame, the one of its time",
 "Splitting a motion into N frames assigns every peak on the detector to the one frame whose time interval holds its diffraction time, drops no peak and duplicates none. Frames are ordered in time, the frames of a render sum to the single-frame render, and a peak with no valid intensity is skipped rather than corrupting a frame.",
 ["inputs","configurations"],"all peak times in [0, 1] including bin boundaries, all frame counts (also below one), all rendering methods",
 "The tests use one or a few frames with a few peaks; boundary times, many frames and the sum over frames are not covered.",
 [X+"detector.py"],
 [("bucketize and clamp of the times",X+"detector.py:peaks_detector_intersection"),("per frame accumulation",X+"detector.py:_render_gauss_peaks, _render_airy_peaks, _render_projected_volumes"),("invalid intensities are skipped",X+"detector.py:peaks_detector_intersection")],
 observe=["peaks column frame","Detector.render frames"])
p("C16","Peak intensity is the product of the enabled factors and is conserved",
 "The total intensity a peak away from the detector edges adds to its frame is its volume times exactly those of the structure, polarization and Lorentz factors that are enabled on the detector (up to the stated kernel cut off, and the pixel area for projections), wherever the peak is and for every rendering method. Frames are non-negative, finite, additive over peaks and proportional to the factors; the automatic method renders each peak by exactly one method chosen by its volume.",
 ["inputs","configurations"],"all peak positions, volumes, factors, flags, kernel widths and thresholds, pixel sizes, methods and render dtypes",
 "The tests look for a non-zero pixel near an expected place; totals, additivity, the flags and the method partition are not checked (weak peaks used to vanish).",
 [X+"detector.py"],
 [("intensity factor column",X+"detector.py:peaks_detector_intersection"),("normalised kernels",X+"detector.py:_render_gauss_peaks, _airy_kernel_batch, _generate_gaussian_kernel"),("partition by volume",X+"detector.py:render")],
 observe=["Detector.render frames, per frame sums"])
p("C17","Rendered peaks are centred where their ray meets the detector",
 "In every rendering method the intensity centroid of an isolated peak coincides with the point at which its scattered ray meets the detector, to within the resolution of the method, in the right row and column of the right frame. The shape is symmetric about that point with the width of the point spread function, or of the crystallite size broadening for small crystals; intensity that falls outside of the detector is cut off there and does not reappear elsewhere.",
 ["inputs","configurations"],"all sub-pixel positions including the detector edges and corners, kernel widths, non-square pixels and detectors, peak widths",
 "The tests check a few peaks at pixel centres; sub-pixel positions, rectangular detectors and edges are not covered.",
 [X+"detector.py"],
 [("gaussian spot on a window around the position",X+"detector.py:_render_gauss_peaks"),("bilinear deposition of Airy kernels",X+"detector.py:_deposit_kernels_batch"),("kernel width from the Scherrer broadening",X+"detector.py:_airy_kernel_batch"),("point spread convolution",X+"detector.py:_conv2d_gaussian_kernel")],
 observe=["Detector.render frames"])
p("C18","Projected grain images are the shadow of the illuminated grain",
 "The macro image of a peak is proportional per pixel to the path length of the scattered rays through the illuminated part of the element at the event time, lies inside the shadow of that volume, and its total is proportional to the illuminated volume. The path length of a line through a convex polyhedron is exactly the length of the common segment, and grains of any size, thin or partly off the detector, render to finite non-negative images.",
 ["inputs"],"all convex hulls, ray directions, pixel sizes relative to the grain (sub-pixel to hundreds of pixels) and positions including the edges",
 "The tests project one cube and one tetrahedron in favourable position; arbitrary hulls, rays parallel to faces, sub-pixel and edge grains are not covered (they gave NaN or exceptions).",
 [X+"detector.py",X+"utils.py",X+"beam.py"],
 [("bounding box of the shadow",X+"detector.py:_get_projected_bounding_box"),("pixel or sample driven projection",X+"detector.py:_project_convex_hull"),("line clipping",X+"utils.py:_clip_line_with_convex_polyhedron"),("uniform sampling of hulls",X+"utils.py:_sample_convex_hull_3d")],
 observe=["Detector.render(method='macro')","utils._clip_line_with_convex_polyhedron"])
p("C19","Saved objects load back to behave identically",
 "Saving and loading a beam, motion, detector, mesh or polycrystal, any number of times and at any point of its life, gives an object that behaves like the original in every later operation: same containment, positions, diffraction peaks and rendered frames. The file name extension is added only when missing, files with the wrong extension are refused, and saving changes neither the object nor the data handed to it.",
 ["histories","inputs","configurations"],"all objects in any reachable state, all save/load chains and file names, and the operations that follow",
 "The tests compare a few attributes after one round trip; behavioural equality after transforms and repeated round trips is not tested (second saves of one data set failed).",
 [X+"beam.py",X+"motion.py",X+"detector.py",X+"mesh.py",X+"polycrystal.py"],
 [("dill pickling and tensor restoration",X+"beam.py, motion.py, detector.py, polycrystal.py: save/load"),("xdmf mesh files with element data",X+"mesh.py:TetraMesh.save, load")],
 observe=["loaded objects against originals"])
p("C20","Simulating changes neither inputs nor state and is repeatable",
 "Constructing, diffracting and rendering modify neither the arrays, meshes, parameter dictionaries and peak dictionaries handed in nor the polycrystal, beam, motion and detector themselves. Repeating an operation, or interleaving it with operations on other objects that share a mesh, phase, beam or motion, gives the same result; objects built from shared inputs are independent of each other.",
 ["histories","inputs"],"all interleavings of diffract, render, transform and save on several objects that share inputs",
 "Each test builds fresh objects; sharing and repetition are never exercised.",
 [X+"polycrystal.py",X+"detector.py",X+"beam.py",X+"phase.py",X+"mesh.py"],
 [("deep copies of the mesh",X+"polycrystal.py:__init__"),("peaks and dictionaries are copied before extension",X+"detector.py:peaks_detector_intersection, render"),("planes are set up anew in every diffract",X+"polycrystal.py:diffract")],
 observe=["arguments and objects before and after calls, results of repeated calls"])
p("C21","Templates build the experiment and samples that their parameters describe",
 "The scanning 3DXRD template builds a beam, detector and motion with exactly the requested sizes, distances, pixel grid, centre, wavelength and rotation, such that the direct beam hits the detector at the given centre pixel. Powder and orientation-distribution samples fill the requested bounds with the requested material, strain field and number of grains, and their orientations are proper rotations distributed as requested.",
 ["inputs","configurations"],"all valid parameter dictionaries, sample sizes, strain fields and normalised orientation distributions",
 "The tests build one parameter set and one sample; geometry for other, in particular unequal, parameters and the distribution of orientations are not checked.",
 [X+"templates.py",X+"utils.py"],
 [("parameters to geometry",X+"templates.py:_get_detector_from_params, _get_beam_from_params, _get_motion_from_params"),("sampling of orientations",X+"templates.py:_sample_ODF"),("samples",X+"templates.py:polycrystal_from_odf, get_uniform_powder_sample")],
 observe=["objects returned by templates.s3dxrd, polycrystal_from_odf, get_uniform_powder_sample"])
p("C22","Invalid input is refused, valid input in any form is accepted alike",
 "Unphysical or inconsistent input (non-unit axis, angle outside (0, pi), polarization not orthogonal to the beam, non-convex beam, mismatched array shapes, missing phase map or parameters, contradictory or missing pixel specification, unknown method or device, wrong file extension) raises an error and leaves the objects involved as they were. Valid input gives the same result whether passed as list, tuple, array or tensor, of integers or floats.",
 ["inputs","configurations"],"all invalid variations of valid input, and all equivalent representations of valid input",
 "The tests probe a few invalid calls and always pass arrays of floats.",
 [X+"beam.py",X+"motion.py",X+"detector.py",X+"polycrystal.py",X+"templates.py",X+"cuda.py",X+"utils.py"],
 [("assertions and ValueErrors in constructors and loaders",X+"beam.py, motion.py, detector.py, polycrystal.py, templates.py"),("conversion helpers",X+"utils.py:ensure_torch, ensure_numpy"),("device normalisation",X+"cuda.py:configure_device")],
 observe=["raised exceptions and object state, results for equivalent representations"])
p("C23","The full simulation agrees with an independent reference simulation",
 "For any small experiment (sample mesh, orientations, strains, phases, beam, motion, detector) the frames produced by diffract and render hold exactly the spots that an independently written forward model predicts: same frame, same position, same intensity. The same holds after any history of transforms, saves and loads of the objects involved.",
 ["inputs","configurations","histories"],"all small experiments and the operation histories that precede the simulation",
 "End-to-end tests render one setup and check that something is visible.",
 [X+"polycrystal.py",X+"detector.py",X+"laue.py",X+"beam.py",X+"motion.py",X+"mesh.py",X+"phase.py",X+"structure_factors.py",X+"scattering_factors.py"],
 [("diffraction",X+"polycrystal.py:Polycrystal.diffract"),("rendering",X+"detector.py:Detector.render")],
 observe=["rendered frames against the reference forward model"])
p("C24","Crystallographic helper quantities equal their definitions",
 "Misorientations are the rotation angles to the mean orientation, the quaternion parametrisation is of unit length and uniform in volume element, interval and diffractogram helpers count every value within their range in exactly one place, and tetrahedron sides, volumes and circumscribed spheres equal their geometric definitions. Conversions between numpy and torch preserve values, shapes and dtype as documented.",
 ["inputs"],"all orientations, angles, intervals, images, point sets and array types",
 "The tests check single hand computed values for some of these.",
 [X+"utils.py"],
 [("helpers",X+"utils.py:_get_misorientations, _alpha_to_quarternion, _diffractogram, _contained_by_intervals, _compute_sides, _compute_tetrahedra_volumes, _circumsphere_of_*"),("conversions",X+"utils.py:ensure_torch, ensure_numpy")],
 observe=["return values of the helpers","Polycrystal.save misorientation field"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import sys
print(len(P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    try: jsonschema.validate(x,sch)
    except Exception as e: print(x['id'],str(e)[:300])
