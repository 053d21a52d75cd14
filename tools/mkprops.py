import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
D="refellips/dataSE.py";S="refellips/structureSE.py";R="refellips/reflect_modelSE.py";O="refellips/objectiveSE.py";Q="refellips/dispersion.py";T="tools/plottools.py"
p("C01","Masked data views stay point-aligned",
 "For every dataset and every mask (given at construction, assigned later, broadcast from one value, or cleared with None), the wavelength, angle, psi and delta views, the 4-tuple, the length and the per-wavelength iteration present exactly the included points, in their original order, with the four values of each point kept together. A mask only hides points: changing or clearing it brings hidden points back unchanged, and changing the array that was given as the mask afterwards has no effect. Assigning or loading new data clears the mask.",
 ["inputs","histories"],"all datasets (any size including one point, repeated wavelengths) and all sequences of mask assignments, clears, data assignments, loads and copies",
 "tests apply one mask to one file and look at lengths; they do not reach sequences of mask changes interleaved with reloads or reassignments",
 [D],[("mask property, wavelength/aoi/psi/delta properties, unique_wavelength_data, data setter",D)],[("mask","True for included points",D)],["DataSE.data","len()","unique_wavelength_data()"])
p("C02","Saving and reloading a dataset loses nothing",
 "Saving a dataset (to a path or an open handle) and loading it again (from a string, a path object or an open handle) gives every point, hidden ones included, with exactly the same four values and in the same order, whatever number of header lines (up to 100) precedes the data. Refreshing a dataset that was read from a file gives exactly what that file now contains. Loading and refreshing never change a file, and saving never changes the dataset.",
 ["inputs","histories"],"all datasets and all interleavings of save, load, refresh, external rewrites of the file, masks and conventions",
 "tests load the fixed files shipped with the repository; they never interleave saving, rewriting and refreshing",
 [D],[("save/load/refresh",D)],[("filename","the file that refresh re-reads",D)],["DataSE.save","DataSE.load","DataSE.refresh"])
p("C03","One delta convention per dataset, honoured everywhere",
 "A dataset created with reflected delta always presents 360-delta in place of every delta above 180, including for data assigned, loaded, refreshed or copied later, and an unreflected dataset never alters delta. Whenever a model is compared with a dataset (residuals, chi-squared, likelihood, plots) the model's delta follows that dataset's convention, even if the same model is shared by several datasets with different conventions and whatever the order in which they were created or evaluated.",
 ["inputs","histories","configurations"],"all datasets, all histories of assignment/refresh/copy, all sets of datasets sharing one model in any creation and evaluation order",
 "tests use one dataset per model and check one convention at a time",
 [D,R,O],[("delta reflection in the dataset and in the model",D+", "+R+", "+O)],[("reflection flag","whether delta is reflected about 180",D)],["DataSE.delta","ObjectiveSE.residuals","ObjectiveSE.plot"])
p("C04","Inputs that belong to the caller are never modified",
 "Arrays, lists, masks, dispersion tables, parameter vectors, evaluation points and layer tables passed in by the caller have the same contents after any operation of the library as before it. This holds for constructing datasets and materials, reflecting delta, evaluating models, computing psi and delta from a layer table, and evaluating objectives.",
 ["inputs","histories"],"all inputs handed to any public operation, over all sequences of operations",
 "tests do not look at their inputs again after the call",
 [D,Q,R,O,S],[("copies made before unit conversion/reflection/zeroing",", ".join([D,Q,R]))],[],["caller's arrays"])
p("C05","Accurion files: every measurement ends up in the right dataset",
 "Loading an Accurion EP4 file yields one dataset per measurement time and contiguous sample location, in file order, where a new location starts when x or y moves by more than 0.2 mm from the first row of the current one. In each dataset the readings of the same angle and wavelength are averaged, sorted by angle and then wavelength, and labelled with the mean position (rounded to 0.01 mm) when readings of that time differ in position and with the time when the file has several times; rows with missing values are ignored and every other row is used exactly once. The result is a single dataset if there is only one and a list otherwise, and the requested delta reflection is applied to the averages.",
 ["inputs"],"all well formed EP4 files: any number of rows, angles, wavelengths, locations, times, incomplete rows and column subsets",
 "tests read three fixed files, each with one combination of columns",
 [D],[("open_EP4file and its location/time grouping",D)],[],["open_EP4file"])
p("C06","Woollam M2000 files: every measurement ends up in the right dataset",
 "Loading a Woollam M2000 file yields, for a static file, one dataset with the ellipsometric rows in file order and, for a dynamic file, one dataset per measurement time, keyed by time in seconds (rounded to 0.1 s) in ascending order, each holding the rows of that time in file order. Thinning options keep exactly every n-th row (starting with the first) and every n-th measurement time (starting with the earliest). The key/value pairs of the file header are kept as metadata of every dataset, and other layouts are refused with an error.",
 ["inputs"],"all well formed M2000 files of either layout and all thinning options",
 "tests read two fixed files with default options",
 [D],[("open_M2000file",D)],[],["open_M2000file"])
p("C07","FilmSense files: every measurement ends up in the right dataset",
 "Loading a FilmSense file yields, for a static file, one dataset and, for a dynamic file, one dataset per recorded time, keyed by that time in file order. In each dataset every wavelength of the file appears once, in file order, at the nominal angle of incidence, with psi = arccos(N)/2 in [0, 90] and delta = the angle of (C, S) in [0, 360) computed from the N, C, S values of that wavelength and that time. The header quantities are kept as metadata and unknown file types are refused.",
 ["inputs"],"all well formed FilmSense files of either layout, any number of wavelengths and times, all quadrants of (C, S)",
 "tests read two fixed files",
 [D],[("open_FilmSenseFile",D)],[],["open_FilmSenseFile"])
p("C08","Horiba files: every measurement is loaded, only requested ones are kept",
 "Loading a Horiba file yields one dataset with every row of its data section, in file order, at the file's angle of incidence, wherever that section lies and whichever columns it has besides wavelength, psi and delta. Wavelength cut-offs keep exactly the rows strictly between the two limits, and delta reflection is applied on request. Each labelled section of the file is kept as metadata.",
 ["inputs"],"all well formed Horiba files (any section order, columns and row count) and all cut-offs",
 "the tests contain no stable check of this loader",
 [D],[("open_HORIBAfile",D)],[],["open_HORIBAfile"])
p("C09","Stacks are composed in order, sharing components, operands untouched",
 "Combining materials, slabs and structures with |, |=, append, extend, insertion, repetition and slicing gives exactly the components of the operands, in order; a bare material given to |, |= or append becomes a zero-thickness, zero-roughness slab of that material. Components are shared rather than copied, so a later change of a component's parameter shows everywhere it is used. Operators other than |= leave their operands unchanged, and |, |= and append refuse things that are not components, materials or structures without changing the structure.",
 ["inputs","histories"],"all expressions and all sequences of in-place edits over materials, slabs, mixed slabs and structures",
 "tests build a few fixed stacks",
 [S],[("operators of materials, components and structures",S)],[],["StructureSE","SlabSE","RI"])
p("C10","The layer table describes the stack that was built",
 "The layer table of a structure has one row per slab, in order, holding its thickness, its refractive index at the structure's wavelength (or the material's own default when none is set), its roughness and its solvent fraction; reversing the structure reverses the rows and moves each roughness to the same physical interface. The refractive index of each interior slab is mixed, according to its solvent fraction, with the explicit solvent or else with the medium that ends up last; fronting and backing are never mixed. An empty structure has no table, and a stack that does not start and end with plain slabs is refused.",
 ["inputs","configurations","histories"],"all stacks, orders, solvents, solvent fractions, wavelengths, mixing rules and reversals",
 "tests look at a few fixed stacks and reversal of thicknesses",
 [S],[("slabs of components and structure, overall_ri",S)],[],["StructureSE.slabs"])
p("C11","Effective-medium mixing obeys its defining laws",
 "For every pair of passive media, volume fraction in [0,1] and depolarisation factor in [0,1], mixing gives the permittivity defined by the chosen rule (linear, Maxwell-Garnett, or the physical solution of Bruggeman's equation). Fraction 0 and 1 give exactly the pure materials, mixing a material with itself gives that material, and the result never has gain. Scalars and arrays give the same values, and unknown rules are refused.",
 ["inputs","configurations"],"all refractive indices with non-negative extinction, fractions, depolarisation factors and rules, scalar and array arguments",
 "tests compare a handful of values with a reference implementation",
 [S],[("overall_ri and its use by mixed slabs and solvation",S)],[],["overall_ri","MixedSlabSE","StructureSE.slabs"])
p("C12","Depth profiles agree with the layer table",
 "A depth profile of a stack with sharp interfaces takes, inside each layer, the refractive index of that layer of the layer table, with interfaces at the cumulative thicknesses measured from the fronting medium; aligning to an interface only shifts the depth axis so that this interface is at zero. With non-default interface shapes the micro-sliced table keeps the total thickness and the end media, takes the (solvated) layer values away from the interfaces and varies monotonically between two adjoining media. Contraction keeps the total thickness of the table and the end media and never lengthens the table.",
 ["inputs","configurations"],"all stacks, alignments, depth grids, interface shapes and contraction settings",
 "tests evaluate one profile of one stack",
 [S],[("ri_profile, micro-slicing and contraction",S)],[],["StructureSE.ri_profile","StructureSE.slabs"])
p("C13","Psi and delta are those of the stack's Fresnel coefficients",
 "For every stack, wavelength (nm), angle of incidence and layer thickness (Angstrom), psi and delta are those of the ratio of the p- and s-polarised amplitude reflection coefficients of the layered medium, including absorbing and opaque layers and total internal reflection. Psi lies in [0, 90] and delta in [0, 360], or in [0, 180] when reflected, before the delta offset is added; the offset shifts every delta by exactly its value. An absorbing incident medium is treated as transparent.",
 ["inputs","configurations"],"all layer tables with passive media, wavelengths, angles in (0,90), offsets and both conventions",
 "tests compare a few stacks with values from other software at moderate angles; no opaque or totally reflecting stacks",
 [R],[("coh_tmm, Delta_Psi_TMM, ReflectModelSE.model",R)],[],["ReflectModelSE","Delta_Psi_TMM"])
p("C14","Each measurement point is computed independently of the others",
 "The psi and delta that a model predicts for a (wavelength, angle) point are the same whichever other points are evaluated with it: permuting, repeating, splitting or thinning the list of points permutes, repeats, splits or thins the results. Residuals correspond point by point with the unmasked data in their order.",
 ["inputs","histories"],"all lists of points, with repeats and in any order, mixing wavelengths and angles",
 "tests evaluate ordered grids once",
 [R,O],[("grouping of points by wavelength in ReflectModelSE.model",R)],[],["ReflectModelSE","ObjectiveSE.residuals"])
p("C15","Optically equivalent descriptions give the same prediction",
 "Rewriting a stack without changing the optics leaves psi and delta unchanged: inserting or removing zero-thickness layers, splitting or merging layers of one material, a layer of the (transparent) incident medium on top, a layer of the backing medium at the bottom, any roughness, anything below an opaque layer, a reversed description of the same stack, solvent fraction 0, a mixed slab of pure or equal materials, and a wrapped versus explicit material. Multiplying all thicknesses and the wavelength by one factor leaves the result unchanged for non-dispersive media.",
 ["inputs","programs"],"all stacks and all sequences of such rewritings",
 "metamorphic relations between stacks are not tested",
 [S,R],[("slab representation and transfer matrix",S+", "+R)],[],["ReflectModelSE"])
p("C16","Residuals, chi-squared and likelihood are consistent",
 "Over the unmasked points in order, residuals are the model-minus-data psi followed by the circular distance between model and data delta, which lies in [0, 180], is symmetric, ignores whole turns and equals the smallest separation. Chi-squared is the sum of squared residuals. The log-likelihood is minus half the sum of squared residuals divided by the variance (1, or 1 + exp(2 lnsigma) model^2) plus the model's and the user's extra terms.",
 ["inputs","configurations"],"all models, datasets, masks, offsets, lnsigma values and extra terms, with data and model on either side of the 0/360 wrap",
 "tests compare two stored values of one objective",
 [O],[("residuals, chisqr, logl, circular_distance",O)],[],["ObjectiveSE.residuals","ObjectiveSE.chisqr","ObjectiveSE.logl"])
p("C17","Parameter vectors set exactly the parameters they name",
 "A vector with one entry per varying parameter sets those, in the order of the varying-parameter list, and nothing else; a vector with one entry per parameter sets all of them in listed order; any other length is refused and changes nothing; no vector leaves everything as it is. A parameter used in several places counts once among the varying ones and takes effect everywhere. The parameters of an objective are its noise parameter, the delta offset, and every parameter of the stack, its materials and its solvent.",
 ["inputs","histories","configurations"],"all objectives (shared, linked, fixed and varying parameters) and all sequences of vectors given to any method that accepts them",
 "tests set one vector of the right length",
 [O,R,S],[("setp, varying_parameters, parameters",", ".join([O,R,S]))],[],["ObjectiveSE.setp","ObjectiveSE.varying_parameters","ReflectModelSE.parameters"])
p("C18","Priors and posterior obey their definitions",
 "The log-prior is the sum over distinct varying parameters of their own log-priors and is minus infinity as soon as one varying parameter is outside its bounds; fixed parameters do not contribute. The log-posterior is the log-prior plus the log-likelihood, and is minus infinity without evaluating the model when the prior is impossible. Mapping the unit cube to parameter values applies each varying parameter's own distribution, in the order of the varying-parameter list, without changing any parameter.",
 ["inputs","histories","configurations"],"all parameter sets, bounds, distributions and vectors",
 "tests evaluate the posterior at feasible points only",
 [O],[("logp, logpost, prior_transform",O)],[],["ObjectiveSE.logp","ObjectiveSE.logpost","ObjectiveSE.prior_transform"])
p("C19","Looking at an analysis does not change it",
 "Estimating the covariance, plotting structures, models, data or objectives (including from posterior samples and with the helper plotting tools), printing, generating parameter samples, computing profiles and mapping priors leave every parameter value, vary flag and bound, the data, the mask, the stack's order, orientation, mixing settings and solvent unchanged. Afterwards every quantity evaluates to what it was before.",
 ["histories"],"all interleavings of read-only operations with evaluations and changes",
 "tests call the plotting functions without comparing the state before and after",
 [O,S,T],[("restoration of parameters in covar and plot",", ".join([O,S,T]))],[],["ObjectiveSE.covar","ObjectiveSE.plot","StructureSE.plot","tools.plottools"])
p("C20","Copies are equivalent and independent",
 "Pickling, deep-copying or copying datasets, materials, slabs, structures, models and objectives gives objects that produce the same data, layer tables, predictions, residuals, priors and likelihoods as the original, with the same settings and the same internal sharing of parameters. Changing a pickled or deep copy never affects the original and vice versa; a shallow copy of a structure shares its components but has its own list and settings.",
 ["inputs","histories"],"all objects and all sequences of copies followed by changes to either side",
 "tests pickle one objective and compare one number",
 [D,S,R,O,Q],[("__copy__, default pickling/deep-copy of every class",", ".join([S,D,O]))],[],["copy","pickle"])
p("C21","Tabulated materials interpolate their table",
 "A material given as a table (arrays, lists or a file, wavelengths in micrometres, with or without an extinction column) returns at every wavelength in nanometres the linear interpolation of its refractive index and extinction, exactly the tabulated value at a tabulated wavelength, and the end value outside the table; a constant material returns its value at every wavelength. Every shipped material loads under its own name and agrees with its file, and unknown names and malformed input are refused. Scalar and array wavelengths agree, and without a wavelength the material's own default is used.",
 ["inputs"],"all tables and wavelengths, all ways of supplying the table, all shipped materials",
 "tests evaluate a few materials at one wavelength",
 [Q],[("RI, load_material",Q)],[],["RI.complex","load_material"])
p("C22","Dispersion models evaluate their formula for current parameters",
 "Cauchy, Sellmeier, Lorentz, Gaussian and Tauc-Lorentz materials return at every wavelength the refractive index of their published formula for the current parameter values: oscillators add, their order is irrelevant, a zero-amplitude oscillator changes nothing, absorbing models never have gain, and Tauc-Lorentz does not absorb below its gap. Scalar and array wavelengths agree, a wavelength is converted to energy as 1239.84/lambda, and without a wavelength the material's own default is used. Lists of oscillator parameters of different lengths are refused.",
 ["inputs","histories"],"all parameter values, numbers and orders of oscillators and wavelengths, and all sequences of parameter changes",
 "tests compare one or two spectra per model with stored reference data",
 [Q,S],[("complex/epsilon of every dispersion model",Q+", "+S)],[],["*.complex","*.epsilon"])
p("C23","Predictions depend only on current parameter values and settings",
 "A model's prediction is a function of the current parameter values, stack and settings and of the requested points alone: every change of a thickness, dispersion, solvent, fraction, offset, orientation, mixing or component list shows in the next evaluation, changing it back gives the earlier result again, and neither earlier evaluations (at other wavelengths or with other vectors) nor other models or objectives sharing the same parts have any influence.",
 ["histories"],"all sequences of changes and evaluations over models that share materials, slabs, structures and parameters",
 "tests evaluate freshly built models once",
 [R,S,Q,O],[("no caching between evaluations; structure wavelength set on each evaluation",", ".join([R,S]))],[],["ReflectModelSE","StructureSE.slabs","ObjectiveSE"])
p("C24","Co-refinement combines objectives correctly",
 "Analysing several objectives together uses each distinct varying parameter once, sends each value to every objective that uses it, and gives residuals, chi-squared, log-likelihood, log-prior and log-posterior equal to the combination of the individual objectives' values with the same parameters. A fit or a sampling run leaves the parameters at the reported solution, within their bounds, with an objective no worse than at the start (for methods that start from the current values), and touches no fixed parameter and no data.",
 ["inputs","histories","configurations"],"all groups of objectives with any sharing of parameters, models and datasets, and all fitting methods and starting points",
 "tests run one fit of one objective",
 [O],[("ObjectiveSE as used by the refnx global objective and curve fitter",O)],[],["GlobalObjective","CurveFitter"])
ids=set()
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"])); assert q["id"] not in ids; ids.add(q["id"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(q)+"\n" for q in P))
print(len(P))
