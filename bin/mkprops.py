#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties are kept here, in a readable form)."""
import json, os
L = "src/library/natrium/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": [L + f for f in files], "mechanism": [{"name": n, "where": L + w} for n, w in mech]}}
    assert len(title) <= 80, (id, len(title))
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

p("P01", "A run stops exactly when it should and its clock never drifts",
  "A simulation advances its iteration counter by one and its clock by exactly one time step per iteration, starting from the iteration and time it was asked to start at. It ends at the first iteration boundary at which the requested number of iterations or the requested end time is reached, or - looked at only at multiples of 100 iterations - the largest pointwise change of the velocity since the previous look is below the convergence threshold. It never ends earlier or runs longer.",
  ["configurations", "histories"], "All iteration limits, end times, thresholds, advection schemes and time integrators, fresh and resumed runs.",
  "The tests run a handful of fixed configurations and compare the final error norms; none varies the stop criteria against each other or resumes at arbitrary iterations.",
  ["solver/CFDSolver.h", "solver/CFDSolver.cpp", "solver/SolverStats.h"],
  [("main loop and stop rule", "solver/CFDSolver.cpp: run, stopConditionMet, isConverged, stream"), ("residual", "solver/SolverStats.h: calulateResiduals")],
  [("iteration, time", "position of the run"), ("residual", "velocity change since the last look")])

p("P02", "Every output file that is due is written, and nothing else",
  "With output switched on, solution files, checkpoints and statistics rows appear for exactly the iterations that are multiples of their interval, and additionally for the final state: always as a solution, and as a checkpoint unless checkpoints are disabled by an interval above 10^8 (as for every kind of output); a resumed run does not rewrite the checkpoint it started from. With output switched off nothing is written. Solution files of all processes are listed in one master file per iteration.",
  ["configurations", "histories"], "All combinations of the three intervals, the output switch, the reason for stopping, fresh and resumed runs, one or several processes.",
  "The tests never look at which files a run produces apart from one checkpoint.",
  ["solver/CFDSolver.cpp", "solver/SolverStats.h", "utilities/CFDSolverUtilities.cpp"],
  [("schedule", "solver/CFDSolver.cpp: output"), ("statistics rows", "solver/SolverStats.h: printNewLine")])

p("P03", "A resumed run continues exactly where the checkpoint was taken",
  "A run that is resumed from a checkpoint reproduces the uninterrupted run: same iteration, same time and the same populations, density, velocity and temperature at every later iteration; resumed on a globally refined mesh or with another velocity scaling it starts from the same flow. A checkpoint that does not fit (missing, other polynomial order, other velocity set, or a coarser mesh than the stored one) is refused with an error instead of silently starting from something else.",
  ["histories", "configurations", "inputs"], "Every checkpoint iteration of every run, chains of several resumptions, all velocity sets, advection schemes, polynomial orders and forcings.",
  "One test resumes one D2Q9 configuration and compares only the global statistics to a coarse tolerance.",
  ["solver/CFDSolver.cpp", "solver/Checkpoint.cpp", "solver/Checkpoint.h"],
  [("save and load", "solver/Checkpoint.cpp: write, load"), ("restart branch", "solver/CFDSolver.cpp: constructor, run")])

p("P04", "A crash never leaves a checkpoint that resumes into a wrong state",
  "Whatever the point at which a run is killed while it writes, a checkpoint that is recognised as present holds the complete state of its iteration, and earlier checkpoints stay usable. The most recent checkpoint found in a directory is the present one with the largest iteration number among the requested kind, and files that are not checkpoints of that kind never change the answer.",
  ["crash_points", "histories"], "Every write, rename and close while a checkpoint is written; all sets of files in a checkpoint directory.",
  "No test interrupts a run or searches a directory with unusual contents.",
  ["solver/CFDSolver.cpp", "solver/Checkpoint.cpp", "solver/Checkpoint.h"],
  [("writing order", "solver/Checkpoint.cpp: write"), ("search", "solver/Checkpoint.h: most recent checkpoint")])

p("P05", "Configuration values are kept, validated and survive a file round trip",
  "Setting a configuration value and reading it back returns that value and changes no other value; a value outside its documented range or set is rejected with an error and leaves the configuration as it was. A configuration written to a parameter file and read into a fresh one gives the same values throughout, and a fresh configuration has the documented defaults.",
  ["inputs", "histories"], "All settings, all sequences of valid and invalid assignments, all files.",
  "The tests set a few values in a fixed order; nothing checks independence, rejection or the round trip.",
  ["solver/SolverConfiguration.h", "solver/SolverConfiguration.cpp"],
  [("entries, patterns and defaults", "solver/SolverConfiguration.cpp: constructor"), ("getters and setters", "solver/SolverConfiguration.h")])

p("P06", "Command line arguments override exactly what they name",
  "Arguments given on the command line change exactly the settings they name, to the value given, and leave all others as the program set them; arguments that were not documented, are of the wrong type or contradict each other are rejected. Arguments can be documented only before and read only after the command line was imported, defaults apply where an argument is absent, and asking for help runs nothing.",
  ["inputs", "histories"], "All command lines and all orders of documenting, importing and reading arguments.",
  "The tests parse a few fixed command lines.",
  ["utilities/CommandLineParser.h", "utilities/CommandLineParser.cpp"],
  [("life cycle", "utilities/CommandLineParser.h"), ("application to the configuration", "utilities/CommandLineParser.cpp: applyToSolverConfiguration")])

p("P07", "The collision model that was configured is the one that runs, exactly once",
  "For every combination of velocity set, collision scheme and equilibrium, a time step applies exactly the configured model once, or the run is refused with an error before the populations are changed. Unsupported combinations are never replaced silently by another model.",
  ["configurations"], "All velocity sets, collision schemes, equilibria, moment bases, relaxation modes and forcing schemes.",
  "The tests cover single models with hand-picked populations; the selection table is not checked as a whole.",
  ["collision_advanced/CollisionSelection.h", "collision_advanced/CollisionOperator.h", "utilities/CFDSolverUtilities.cpp"],
  [("selection", "collision_advanced/CollisionSelection.h: selectCollision"), ("operator", "collision_advanced/CollisionOperator.h: collideAll")])

p("P08", "Ill-posed problems are refused before the first time step",
  "A problem is accepted only if every boundary face of its mesh belongs to exactly one boundary condition, every boundary condition refers to an existing part of the boundary, and no boundary is described twice; otherwise an error is raised and the set of boundaries is unchanged. Queries for a boundary, its kind and its identifiers agree with what was added, in any order of additions.",
  ["inputs", "histories"], "All sequences of additions of periodic and other boundaries, all labellings of a mesh.",
  "The tests add a few boundaries in one order.",
  ["problemdescription/BoundaryCollection.h", "problemdescription/ProblemDescription.h"],
  [("bookkeeping", "problemdescription/BoundaryCollection.h"), ("validation", "problemdescription/ProblemDescription.h: checkBoundaryConditions")])

p("P09", "Periodic boundaries pair every boundary cell with its translated image",
  "Across a periodic boundary every cell at one side is paired with exactly the cell at the other side whose face is its image under translation, in both directions, for every refinement, and a point leaving through one side re-enters at the image point with all other coordinates unchanged. Sides that do not match are refused.",
  ["inputs", "configurations"], "All box sizes, numbers of cells per direction, refinements, two and three dimensions, and directions.",
  "The tests use one or two square meshes.",
  ["boundaries/PeriodicBoundary.h", "boundaries/PeriodicBoundary.cpp"],
  [("pairing", "boundaries/PeriodicBoundary.cpp: createCellMap, getOppositeCellAtPeriodicBoundary"), ("translation", "boundaries/PeriodicBoundary.cpp: coordinatesAcrossPeriodicBoundary")])

p("P10", "Every velocity set is a symmetric quadrature, whatever its scaling",
  "For each velocity set and scaling the weights are positive and sum to one, the set is closed under reversal with the opposite index pointing to the reversed velocity of equal weight, all odd moments vanish and the second moment is the squared speed of sound times the identity; fourth moments are isotropic for the sets used with the quadratic equilibrium. Scaling multiplies the velocities and leaves weights, ordering and indices alone; moment transforms and their inverses are inverse to each other.",
  ["configurations", "inputs"], "All velocity sets, all positive scalings, all index pairs.",
  "The tests check a part of the moments for some sets at scaling one.",
  ["stencils/Stencil.h", "stencils/D2Q9.cpp", "stencils/D3Q19.cpp", "stencils/D3Q15.cpp", "stencils/D3Q27.cpp", "stencils/D2Q25H.cpp", "collision_advanced/AuxiliaryMRTFunctions.cpp"],
  [("velocity sets", "stencils"), ("moment bases", "collision_advanced/AuxiliaryMRTFunctions.cpp")])

p("P11", "Collisions conserve mass and momentum and relax stress with the viscosity",
  "Without forces, every collision model leaves density and momentum of every node unchanged, leaves equilibria unchanged, and relaxes the deviatoric stress towards equilibrium at the rate that corresponds to the configured viscosity and time step. Density and velocity reported after the collision are the moments of the populations, and one node's populations never influence another's. The classes of the older collision interface (BGK variants, multistep, MRT, entropic, KBC) are held to the same on the velocity sets they take, and refuse the others.",
  ["inputs", "configurations"], "All positive populations, viscosities, time steps, scalings and supported models.",
  "The tests apply the models to a few populations with tolerances on single numbers.",
  ["collision_advanced/CollisionSchemes.h", "collision_advanced/Equilibria.h", "collision_advanced/AuxiliaryCollisionFunctions.h", "collision_advanced/AuxiliaryMRTFunctions.cpp", "collision/BGKStandard.cpp", "collision/MRTStandard.cpp"],
  [("relaxation", "collision_advanced/CollisionSchemes.h"), ("equilibria", "collision_advanced/Equilibria.h")])

p("P12", "Semi-Lagrangian streaming transports populations along their velocities",
  "Away from walls a streaming step gives every support point the value of the interpolated population at the point it came from, position minus velocity times step, crossing cells and periodic boundaries wherever the path leads (through at most 50 cell faces); polynomials up to the order of the elements are transported exactly, constants are kept, and the population at rest does not change. The result is linear in the populations and independent for each of them.",
  ["inputs", "configurations"], "All CFL numbers, polynomial orders, velocity sets, meshes (stretched and refined), paths crossing several cells.",
  "The tests stream a few sine profiles on square meshes with loose tolerances.",
  ["advection/SemiLagrangian.h", "advection/SemiLagrangian.cpp", "advection/SemiLagrangianTools.h", "advection/AdvectionTools.h"],
  [("tracing of paths", "advection/SemiLagrangian.cpp: fillSparseObject"), ("streaming", "advection/SemiLagrangian.cpp: stream")])

p("P13", "Walls impose their velocity and create neither mass nor flow",
  "Walls moving with the fluid leave a uniform flow at that velocity unchanged, a wall at rest leaves fluid at rest unchanged, and bounce-back walls return the population of the opposite direction from the place where the path met the wall. Fluid at rest in a closed box of resting walls keeps its mass, and no value is taken across a wall.",
  ["inputs", "configurations"], "All wall velocities, orders, CFL numbers, velocity sets, wall kinds, positions and mesh refinements.",
  "The tests run one Couette flow and check single numbers.",
  ["boundaries/VelocityNeqBounceBack.cpp", "boundaries/SLFirstOrderBounceBack.h", "boundaries/SLEquilibriumBoundary.h", "boundaries/SemiLagrangianBoundaryHandler.h", "boundaries/SemiLagrangianBoundaryHandler.cpp"],
  [("hit points", "boundaries/SemiLagrangianBoundaryHandler.h"), ("boundary conditions", "boundaries")])

p("P14", "Populations are independent vectors of one common layout",
  "A set of populations holds one vector per velocity, all of the same size and layout: writing one of them changes that one only, reading returns what was written last, and copies are deep. Indices beyond the set and vectors of the wrong number are refused or impossible, and the blocks and the single vector are views of the same numbers in the documented order.",
  ["histories", "inputs"], "All sequences of construction, resizing, assignment, copying and element access.",
  "The tests construct one small set.",
  ["solver/DistributionFunctions.h", "solver/DistributionFunctions.cpp"],
  [("container", "solver/DistributionFunctions.cpp")])

p("P15", "Results do not depend on the number of processes",
  "The same simulation run on any number of processes gives the same density, velocity and populations at every point up to rounding (on lines between coarse and fine cells, where either side may be interpolated, up to the interpolation error), the same number of iterations, the same statistics and the same set of outputs. Checkpoints written by any number of processes can be resumed by any other number.",
  ["configurations", "schedules"], "All process counts, meshes, boundary conditions and advection schemes.",
  "The tests run with one process only.",
  ["solver/CFDSolver.cpp", "advection/SemiLagrangian.cpp", "boundaries/SemiLagrangianBoundaryHandler.cpp", "solver/SolverStats.h", "solver/PhysicalProperties.cpp"],
  [("distribution", "advection/SemiLagrangian.cpp"), ("reductions", "solver/PhysicalProperties.cpp")])

p("P16", "Reported statistics are the quantities they name",
  "The mass, kinetic energy, largest velocity component, pressure extrema, mean velocity, enstrophy and entropy reported for a flow equal the integrals and extrema of the density, velocity and populations they are named after (the integrals are exact for every field that the elements represent exactly), and so do the moments of the turbulence table and the averages and deviations in planes. A row of a table belongs to the iteration and time it states, and columns never swap.",
  ["inputs", "histories"], "All polynomial fields, mesh sizes and refinements, iterations.",
  "The tests evaluate one Taylor-Green field with loose tolerances.",
  ["solver/PhysicalProperties.h", "solver/PhysicalProperties.cpp", "solver/SolverStats.h"],
  [("integrals", "solver/PhysicalProperties.cpp"), ("table", "solver/SolverStats.h")])

p("P17", "Time integrators advance linear systems as their scheme says",
  "One step of every time integrator maps the state to the scheme's stability function of the step times the system matrix applied to the state, plus the matching treatment of the source, and returns time plus step. It is linear in state and source, is exact for polynomials in time up to the order of the scheme, and leaves a steady state alone; a step size passed explicitly takes precedence over the stored one. Embedded schemes may choose a shorter or longer step within their bounds, report the time they reached and advance the state to exactly that time.",
  ["inputs", "configurations", "histories"], "All integrators, matrices, sources, states and step sizes, sequences of steps of different size.",
  "The tests compare few steps of scalar problems with loose tolerances.",
  ["timeintegration/ThetaMethod.cpp", "timeintegration/RungeKutta5LowStorage.cpp", "timeintegration/ExponentialTimeIntegrator.cpp", "timeintegration/DealIIWrapper.cpp"],
  [("schemes", "timeintegration")])

p("P18", "Filters damp high modes only and keep means",
  "A filter multiplies each polynomial mode of each cell by its prescribed damping factor: constants and modes up to the cut-off are unchanged, so cell means and mass are kept, higher modes shrink by the prescribed factor and never grow. It treats every population and every cell independently and alike.",
  ["inputs", "configurations"], "All filter parameters, polynomial orders, populations and meshes.",
  "The tests filter one field.",
  ["smoothing/ExponentialFilter.cpp", "smoothing/NewFilter.cpp", "smoothing/Filter.h"],
  [("damping factors", "smoothing/ExponentialFilter.cpp: makeDegreeVectors")])

p("P19", "The discontinuous Galerkin operator differentiates exactly and conserves mass",
  "In the interior and across periodic boundaries the advection operator applied to a population gives minus velocity times gradient exactly for every continuous piecewise polynomial that the elements represent, vanishes for constants, and sums to zero over a periodic domain for every population and both numerical fluxes. Discontinuities are carried by the flux from the upwind side; at a wall the value outside is the opposite population plus the momentum of the wall. A uniform flow is steady.",
  ["inputs", "configurations"], "All polynomials up to the element order, velocity sets, scalings, meshes and fluxes.",
  "The tests advect few sine profiles and look at convergence orders.",
  ["advection/SEDGMinLee.h", "advection/SEDGMinLee.cpp"],
  [("assembly", "advection/SEDGMinLee.cpp: assembleLocalMatrices, assembleAndDistributeInternalFace, calculateAndDistributeLocalStencilMatrices")])

p("P20", "A simulation starts from the prescribed flow",
  "At iteration zero, density and velocity at every support point equal the prescribed initial functions, and the populations are the equilibrium of exactly these fields; iterative initialisation keeps the prescribed velocity and changes only the density and the non-equilibrium part. Evaluating the initial state does not depend on where a point lies in the mesh.",
  ["inputs", "configurations"], "All initial fields, meshes, velocity sets, scalings and initialisation schemes.",
  "The tests check the start of one or two benchmarks.",
  ["solver/CFDSolver.cpp", "problemdescription/ProblemDescription.h"],
  [("initial fields", "solver/CFDSolver.cpp: applyInitialDensities, applyInitialVelocities, initializeDistributions")])

p("P21", "A body force adds exactly force times time step of momentum",
  "In every time step a constant body force increases the momentum of every node by force times step, for every forcing scheme and collision model that accepts it, and leaves the density unchanged; the reported velocity includes half of that increase. Problems with a force but without a forcing scheme are refused.",
  ["inputs", "configurations"], "All forces, densities, viscosities, steps, scalings and supported models.",
  "The tests run one channel flow.",
  ["collision_advanced/AuxiliaryCollisionFunctions.h", "collision_advanced/CollisionOperator.h"],
  [("forcing", "collision_advanced/AuxiliaryCollisionFunctions.h: applyForces, postCollisionApplyForces, applyMacroscopicForces")])

p("P22", "Compressible collisions also conserve energy",
  "With the quartic equilibrium (the quadratic one carries no temperature) the two-population compressible model leaves density, momentum and total energy of every node unchanged, keeps equilibria of any temperature and heat capacity ratio, and reports the temperature that corresponds to the energy. Density, velocity and temperature prescribed initially are the ones the populations carry.",
  ["inputs", "configurations"], "All densities, velocities, temperatures, heat capacity ratios, Prandtl numbers and supported velocity sets.",
  "The tests look at few populations.",
  ["collision_advanced/CollisionSchemes.h", "collision_advanced/AuxiliaryCollisionFunctions.h", "solver/CompressibleCFDSolver.h"],
  [("two-population collision", "collision_advanced/CollisionSchemes.h: relaxWithG")])

p("P23", "The time step follows from mesh, order, velocities and CFL number",
  "The time step is the CFL number times the smallest distance between corners of a cell divided by the largest particle speed and the square of the order, scales inversely with the velocity scaling, and depends on nothing else; the relaxation time follows from viscosity, speed of sound and the time step that was taken (embedded integrators change it), and the clock advances by exactly this step. Mesh refinement never enlarges it.",
  ["inputs", "configurations"], "All meshes, orders, CFL numbers, velocity sets and scalings.",
  "The tests compute the step of two meshes.",
  ["utilities/CFDSolverUtilities.cpp", "utilities/CFDSolverUtilities.h"],
  [("time step", "utilities/CFDSolverUtilities.cpp: calculateTimestep, getMinimumDoFDistanceGLL")])

p("P24", "Uniform flow is a steady state of every scheme",
  "A uniform flow of any density and velocity in a periodic box stays exactly as it is for any number of iterations, for every combination of velocity set, scaling, advection scheme, time integrator, collision model, filter (that leaves constants alone) and mesh; under a force it stays uniform and gains force times time. Mass and momentum of any periodic flow without force stay constant up to the accuracy of the scheme. Shifting, mirroring or exchanging the axes of the initial flow shifts, mirrors or exchanges the result.",
  ["configurations", "inputs"], "All supported combinations and all uniform states; all symmetric pairs of initial flows on symmetric meshes.",
  "The tests run a few benchmark flows with one scheme each.",
  ["solver/CFDSolver.cpp", "advection/SemiLagrangian.cpp", "advection/SEDGMinLee.cpp"],
  [("time step", "solver/CFDSolver.cpp: stream, collide, filter")])

p("P25", "Benchmark runs report their error, and solution files hold the fields",
  "For a problem with an analytic solution, every row of errors_table.txt holds the iteration, its time, the largest analytic velocity, the largest deviations of velocity and density over all nodes and their L2 norms over the domain, each taken at the time of that iteration against the analytic solution at the same time; a row is written for every iteration that is due, with and without energy transport. The solution files of an iteration cover every cell of the mesh exactly once over all processes and hold, at the positions of the mesh, the density, velocity (temperature) of that iteration as the elements represent them, and the analytic solution at its time.",
  ["inputs", "configurations", "histories"], "All analytic solutions, meshes, element orders, intervals, process counts.",
  "No test reads a solution file or an error table.",
  ["solver/BenchmarkCFDSolver.cpp", "solver/ErrorStats.cpp", "solver/BenchmarkCompressibleCFDSolver.cpp", "solver/CompressibleErrorStats.cpp", "solver/CFDSolver.cpp: output"],
  [("error table", "solver/ErrorStats.cpp: update, printNewLine"), ("solution files", "solver/CFDSolver.cpp: output")])

p("P26", "Benchmark flows solve the equations they stand for",
  "The analytic solutions of the benchmark flows (Taylor-Green vortex, Couette flow) satisfy continuity and the momentum equation with the stated viscosity at every place and time, for every viscosity, size, drift and speed of sound; they equal the wall velocities at the walls, are periodic where the domain is, begin with the stated flow and end in the steady one. Initial densities of vortices carry the pressure that belongs to the velocity; the force of Poiseuille flow holds the parabola of the stated mean velocity; walls and periodic sides of the problems are where the flow has them, and the mesh fills the stated box.",
  ["inputs"], "All parameters of the benchmark flows, all places and times.",
  "The tests use each flow with one set of parameters.",
  ["benchmarks/TaylorGreenVortex2D.cpp", "benchmarks/TaylorGreenVortex3D.cpp", "benchmarks/CouetteFlow2D.cpp", "benchmarks/CouetteFlow3D.cpp", "benchmarks/PoiseuilleFlow2D.cpp", "benchmarks/PoiseuilleFlow3D.cpp", "benchmarks/ShearLayer2D.cpp"],
  [("analytic solutions", "benchmarks/*.cpp: value"), ("problems", "benchmarks/*.cpp: makeGrid, makeBoundaries")])

p("P27", "Regularization keeps what the equations need and nothing else",
  "A run with regularization replaces the populations at every node, once per step and after the collision, by those of largest (quadratic) entropy that have the same density, momentum and stress, or the same density, momentum and traceless stress, whichever the scheme says; without regularization populations stay as they are. This holds for every state, element order, mesh, scaling of the velocities, advection scheme and number of processes, and the values that other processes see are the regularized ones. A scheme that does not exist for the velocity set is refused instead of being ignored.",
  ["inputs", "configurations"], "All population states, velocity sets, schemes, process counts.",
  "No test regularizes anything.",
  ["dataprocessors/PseudoEntropicStabilizer.cpp", "solver/CFDSolver.cpp: constructor, run"],
  [("regularization", "dataprocessors/PseudoEntropicStabilizer.cpp: apply"), ("choice of the scheme", "solver/CFDSolver.cpp: constructor")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
