"""The public operations of the package as read from the source (frozen: later additions are analysed through their callers)."""

API = {
    "bandstructure.BandStructureModel.__add__",
    "bandstructure.BandStructureModel.__call__",
    "bandstructure.BandStructureModel.__init__",
    "bandstructure.BandStructureModel.__mul__",
    "bandstructure.BandStructureModel.band_count",
    "bandstructure.BandStructureModel.bands",
    "bandstructure.BandStructureModel.bands_grad",
    "bandstructure.BandStructureModel.bands_grad_hess",
    "bandstructure.BandStructureModel.copy",
    "bandstructure.BandStructureModel.ddf",
    "bandstructure.BandStructureModel.df",
    "bandstructure.BandStructureModel.electron_phonon_coupling",
    "bandstructure.BandStructureModel.error",
    "bandstructure.BandStructureModel.f",
    "bandstructure.BandStructureModel.init_from_ref",
    "bandstructure.BandStructureModel.init_tight_binding",
    "bandstructure.BandStructureModel.init_tight_binding_from_ref",
    "bandstructure.BandStructureModel.load",
    "bandstructure.BandStructureModel.loss",
    "bandstructure.BandStructureModel.normalize",
    "bandstructure.BandStructureModel.optimize",
    "bandstructure.BandStructureModel.optimize_cg",
    "bandstructure.BandStructureModel.params_complex",
    "bandstructure.BandStructureModel.permute",
    "bandstructure.BandStructureModel.plot_bands",
    "bandstructure.BandStructureModel.print_error",
    "bandstructure.BandStructureModel.print_model_norms",
    "bandstructure.BandStructureModel.randomize",
    "bandstructure.BandStructureModel.save",
    "bandstructure.BandStructureModel.set_params_complex",
    "bandstructure.BandStructureModel.supercell",
    "bandstructure.BandStructureModel.transform",
    "bandstructure.BandStructureModel.windowed_loss",
    "bandstructure.plot_bands_generic",
    "bulk_properties.FreeElectrons.__call__",
    "bulk_properties.FreeElectrons.__init__",
    "bulk_properties.FreeElectrons.bands_grad",
    "bulk_properties.FreeElectrons.bands_grad_hess",
    "bulk_properties.KIntegral.__init__",
    "bulk_properties.KIntegral.conductivity_hall_tensor",
    "bulk_properties.KIntegral.drude_factor",
    "bulk_properties.KIntegral.hall_coefficient",
    "bulk_properties.KIntegral.hall_coefficient_metal_cubic",
    "bulk_properties.KIntegral.heat_capacity",
    "bulk_properties.KIntegral.integrate_df",
    "bulk_properties.KIntegral.integrate_df_A",
    "bulk_properties.KIntegral.precompute",
    "bulk_properties.KIntegral.transport_coefficients",
    "bulk_properties.conductivity",
    "bulk_properties.electronic_thermal_conductivity",
    "bulk_properties.hall_coefficients",
    "bulk_properties.peltier",
    "bulk_properties.seebeck",
    "density_of_states.DensityOfStates.__init__",
    "density_of_states.DensityOfStates.bandgap",
    "density_of_states.DensityOfStates.check",
    "density_of_states.DensityOfStates.chemical_potential",
    "density_of_states.DensityOfStates.conductivity",
    "density_of_states.DensityOfStates.cut_band_indices",
    "density_of_states.DensityOfStates.density",
    "density_of_states.DensityOfStates.density_band",
    "density_of_states.DensityOfStates.density_bands",
    "density_of_states.DensityOfStates.energy",
    "density_of_states.DensityOfStates.energy_range",
    "density_of_states.DensityOfStates.fermi_energy",
    "density_of_states.DensityOfStates.fermi_surface_samples",
    "density_of_states.DensityOfStates.full_curve",
    "density_of_states.DensityOfStates.heat_capacity",
    "density_of_states.DensityOfStates.k_resolved_density",
    "density_of_states.DensityOfStates.load",
    "density_of_states.DensityOfStates.model_bandcount",
    "density_of_states.DensityOfStates.save",
    "density_of_states.DensityOfStates.seebeck",
    "density_of_states.DensityOfStates.states_below",
    "density_of_states.DensityOfStates.states_below_band",
    "density_of_states.DensityOfStates.states_density",
    "density_of_states.convolve_ddf",
    "density_of_states.convolve_df",
    "density_of_states.gauss_4_f",
    "density_of_states.gauss_5_df",
    "density_of_states.gauss_6_f",
    "density_of_states.gauss_7_df",
    "density_of_states.int_poly",
    "density_of_states.naive_energy",
    "density_of_states.naive_fermi_energy",
    "density_of_states.secant",
    "fermi_surface.export_3D_fermi_surface",
    "fermi_surface.fermi_surface",
    "fermi_surface.plot_2D_fermi_surface",
    "fermi_surface.plot_3D_fermi_surface",
    "fermi_surface.plot_3D_fermi_surface_to_ax",
    "hamiltonian_symmetry.HamiltonianSymmetry.__init__",
    "hamiltonian_symmetry.HamiltonianSymmetry.__len__",
    "hamiltonian_symmetry.HamiltonianSymmetry.append",
    "hamiltonian_symmetry.HamiltonianSymmetry.append_d2",
    "hamiltonian_symmetry.HamiltonianSymmetry.append_d3",
    "hamiltonian_symmetry.HamiltonianSymmetry.append_diamond_d3",
    "hamiltonian_symmetry.HamiltonianSymmetry.append_diamond_p",
    "hamiltonian_symmetry.HamiltonianSymmetry.append_diamond_s",
    "hamiltonian_symmetry.HamiltonianSymmetry.append_p",
    "hamiltonian_symmetry.HamiltonianSymmetry.append_s",
    "hamiltonian_symmetry.HamiltonianSymmetry.apply",
    "hamiltonian_symmetry.HamiltonianSymmetry.copy",
    "hamiltonian_symmetry.HamiltonianSymmetry.dim",
    "hamiltonian_symmetry.HamiltonianSymmetry.get_band_name",
    "hamiltonian_symmetry.HamiltonianSymmetry.realize_symmetric",
    "hamiltonian_symmetry.HamiltonianSymmetry.symmetrize",
    "hamiltonian_symmetry.HamiltonianSymmetry.symmetrizer",
    "json_tb_format.load",
    "json_tb_format.save",
    "kpaths.KPath.__getitem__",
    "kpaths.KPath.__init__",
    "kpaths.KPath.__iter__",
    "kpaths.KPath.__len__",
    "kpaths.KPath.__str__",
    "kpaths.KPath.dim",
    "kpaths.KPath.plot",
    "kpaths.KPath.plot_comparison",
    "kpaths.KPath.sym_x",
    "kpaths.KPath.sym_x_names",
    "kpaths.KPath.to",
    "kpaths.KPath.x",
    "kpaths.hexagonal_points",
    "kpaths.interpolate",
    "kpaths.interpolate_unstructured",
    "kpaths.tetragonal_bc_points",
    "kpaths.trigonal_points",
    "linalg.conjugate_gradient_solve",
    "linalg.direct_sum",
    "linalg.eigh_grad",
    "linalg.eigh_grad_hess",
    "linalg.geigh",
    "linalg.geigh_grad",
    "linalg.geigvalsh",
    "linalg.kron",
    "linalg.lattice_in_sphere",
    "linalg.merge_axes",
    "linalg.pointcloud_distance",
    "linalg.random_hermitian",
    "linalg.random_unitary",
    "logger.OptimisationLogger.__init__",
    "logger.OptimisationLogger.abort",
    "logger.OptimisationLogger.add_data",
    "logger.OptimisationLogger.add_message",
    "logger.OptimisationLogger.iteration_count",
    "logger.OptimisationLogger.last_loss",
    "logger.OptimisationLogger.plot_loss",
    "loss.model_error",
    "loss.model_error_hist",
    "loss.model_loss",
    "loss.model_windowed_loss",
    "qespresso_interface.QECrystal.__init__",
    "qespresso_interface.QECrystal.bands",
    "qespresso_interface.QECrystal.bandx",
    "qespresso_interface.QECrystal.crystal_wannier",
    "qespresso_interface.QECrystal.dielectric_function",
    "qespresso_interface.QECrystal.dos",
    "qespresso_interface.QECrystal.fermi_surface",
    "qespresso_interface.QECrystal.k_path_wannier",
    "qespresso_interface.QECrystal.k_points_wannier",
    "qespresso_interface.QECrystal.lattice_vectors_in_m",
    "qespresso_interface.QECrystal.mass_density",
    "qespresso_interface.QECrystal.nscf",
    "qespresso_interface.QECrystal.nscf_nosym",
    "qespresso_interface.QECrystal.overlaps_for_wannier",
    "qespresso_interface.QECrystal.plot_bands",
    "qespresso_interface.QECrystal.plot_crystal",
    "qespresso_interface.QECrystal.plot_wannier_bands",
    "qespresso_interface.QECrystal.prepare_plot_wannier_bands",
    "qespresso_interface.QECrystal.prepare_wannier",
    "qespresso_interface.QECrystal.projections",
    "qespresso_interface.QECrystal.read_available",
    "qespresso_interface.QECrystal.read_bands_crystal",
    "qespresso_interface.QECrystal.read_bandx",
    "qespresso_interface.QECrystal.read_bandx_raw",
    "qespresso_interface.QECrystal.read_charge_density",
    "qespresso_interface.QECrystal.read_dielectric_function",
    "qespresso_interface.QECrystal.read_dos",
    "qespresso_interface.QECrystal.read_projections",
    "qespresso_interface.QECrystal.read_projections_order_spilling",
    "qespresso_interface.QECrystal.read_valence_electrons",
    "qespresso_interface.QECrystal.read_wannier_tb",
    "qespresso_interface.QECrystal.read_wavefunctions",
    "qespresso_interface.QECrystal.relax",
    "qespresso_interface.QECrystal.scale_to_density",
    "qespresso_interface.QECrystal.scf",
    "qespresso_interface.QECrystal.set_cutoff_from_pseudopotentials",
    "qespresso_interface.QECrystal.set_multitasking_parameters",
    "qespresso_interface.QECrystal.wannier",
    "qespresso_interface.bcc",
    "qespresso_interface.fcc",
    "qespresso_interface.from_disk",
    "qespresso_interface.hexagonal",
    "qespresso_interface.k_grid",
    "qespresso_interface.k_points",
    "qespresso_interface.monoclinic",
    "qespresso_interface.monoclinic_base_centered",
    "qespresso_interface.orthorhombic",
    "qespresso_interface.orthorhombic_base_centered",
    "qespresso_interface.orthorhombic_body_centered",
    "qespresso_interface.orthorhombic_face_centered",
    "qespresso_interface.plot_bands_generic",
    "qespresso_interface.print_orbitals",
    "qespresso_interface.qe_prepare",
    "qespresso_interface.rhombohedral",
    "qespresso_interface.sc",
    "qespresso_interface.tetragonal",
    "qespresso_interface.tetragonal_body_centered",
    "qespresso_interface.triclinic",
    "qespresso_interface.version",
    "slater_koster.SlaterKoster.__init__",
    "slater_koster.SlaterKoster.from_orbitals",
    "slater_koster.SlaterKoster.interactive_widget",
    "slater_koster.SlaterKoster.parameters",
    "slater_koster.SlaterKoster.set_parameter",
    "slater_koster.SlaterKosterOriginal.__init__",
    "slater_koster.SlaterKosterOriginal.f",
    "slater_koster.SlaterKosterOriginal.fcc",
    "smearing.CubesSmearing.__init__",
    "smearing.CubesSmearing.dvolume",
    "smearing.CubesSmearing.samples",
    "smearing.CubesSmearing.volume",
    "smearing.CubesSmearing.volume_dvolume",
    "smearing.ExtraCubesSmearing.__init__",
    "smearing.ExtraCubesSmearing.dvolume",
    "smearing.ExtraCubesSmearing.samples",
    "smearing.ExtraCubesSmearing.volume",
    "smearing.ExtraCubesSmearing.volume_dvolume",
    "smearing.SmearingMethod.dvolume",
    "smearing.SmearingMethod.samples",
    "smearing.SmearingMethod.volume",
    "smearing.SmearingMethod.volume_dvolume",
    "smearing.SphereSmearing.__init__",
    "smearing.SphereSmearing.dvolume",
    "smearing.SphereSmearing.volume",
    "smearing.SphereSmearing.volume_dvolume",
    "smearing.TetraSmearing.__init__",
    "smearing.TetraSmearing.dvolume",
    "smearing.TetraSmearing.volume",
    "smearing.TetraSmearing.volume_dvolume",
    "smearing.cube_cut_area_com",
    "smearing.cube_cut_dvolume",
    "smearing.cube_cut_volume",
    "smearing.cube_cut_volume_dvolume",
    "smearing.cube_precomp",
    "smearing.cube_tetra_cut_dvolume",
    "smearing.cube_tetra_cut_volume",
    "smearing.extrapolate_poly",
    "smearing.tetra_cut_dvolume",
    "smearing.tetra_cut_volume",
    "smearing.unit_sphere_cut",
    "smearing.unit_tetra_cut_dvolume",
    "smearing.unit_tetra_cut_volume",
    "symmetry.Symmetry.__contains__",
    "symmetry.Symmetry.__eq__",
    "symmetry.Symmetry.__init__",
    "symmetry.Symmetry.__len__",
    "symmetry.Symmetry.__mul__",
    "symmetry.Symmetry.__str__",
    "symmetry.Symmetry.__truediv__",
    "symmetry.Symmetry.check",
    "symmetry.Symmetry.check_neighbors",
    "symmetry.Symmetry.check_symmetry",
    "symmetry.Symmetry.complete_neighbors",
    "symmetry.Symmetry.conjugacy_classes",
    "symmetry.Symmetry.copy",
    "symmetry.Symmetry.cubic",
    "symmetry.Symmetry.cyclic",
    "symmetry.Symmetry.dihedral",
    "symmetry.Symmetry.dim",
    "symmetry.Symmetry.dual",
    "symmetry.Symmetry.equivalence_classes",
    "symmetry.Symmetry.even_perm3",
    "symmetry.Symmetry.find_classes",
    "symmetry.Symmetry.from_generator",
    "symmetry.Symmetry.from_lattice",
    "symmetry.Symmetry.get_symmetry_operations",
    "symmetry.Symmetry.icosahedral",
    "symmetry.Symmetry.ignore_translation",
    "symmetry.Symmetry.inv",
    "symmetry.Symmetry.is_orthogonal",
    "symmetry.Symmetry.k_weight",
    "symmetry.Symmetry.mirror3",
    "symmetry.Symmetry.mirror_x",
    "symmetry.Symmetry.mirror_xy",
    "symmetry.Symmetry.none",
    "symmetry.Symmetry.o1",
    "symmetry.Symmetry.o2",
    "symmetry.Symmetry.perm3",
    "symmetry.Symmetry.point_group",
    "symmetry.Symmetry.r_class_size",
    "symmetry.Symmetry.realize_symmetric",
    "symmetry.Symmetry.realize_symmetric_data",
    "symmetry.Symmetry.reduce_symmetric_data",
    "symmetry.Symmetry.remove_translation",
    "symmetry.Symmetry.space_dim",
    "symmetry.Symmetry.space_group",
    "symmetry.Symmetry.square",
    "symmetry.Symmetry.strict_point_group",
    "symmetry.Symmetry.subgroup",
    "symmetry.Symmetry.symmetrize",
    "symmetry.Symmetry.tetrahedral",
    "symmetry.Symmetry.transform",
    "symmetry.Symmetry.transpose",
    "symmetry.neighbor_function",
    "symmetry.try_neighbor_function",
    "tight_binding.TightBindingModel.__call__",
    "tight_binding.TightBindingModel.__init__",
    "tight_binding.TightBindingModel.band_count",
    "tight_binding.TightBindingModel.bands",
    "tight_binding.TightBindingModel.bands_grad",
    "tight_binding.TightBindingModel.bands_grad_hess",
    "tight_binding.TightBindingModel.copy",
    "tight_binding.TightBindingModel.copy_transformed",
    "tight_binding.TightBindingModel.ddf",
    "tight_binding.TightBindingModel.ddf_i",
    "tight_binding.TightBindingModel.df",
    "tight_binding.TightBindingModel.df_i",
    "tight_binding.TightBindingModel.dim",
    "tight_binding.TightBindingModel.error",
    "tight_binding.TightBindingModel.f",
    "tight_binding.TightBindingModel.f_i",
    "tight_binding.TightBindingModel.init_from_ref",
    "tight_binding.TightBindingModel.loss",
    "tight_binding.TightBindingModel.normalize",
    "tight_binding.TightBindingModel.optimize",
    "tight_binding.TightBindingModel.params_complex",
    "tight_binding.TightBindingModel.set_from_complex",
    "tight_binding.TightBindingModel.windowed_loss",
    "tight_binding.random_hermitian",
    "tight_binding_asym.AsymTightBindingModel.__add__",
    "tight_binding_asym.AsymTightBindingModel.__call__",
    "tight_binding_asym.AsymTightBindingModel.__init__",
    "tight_binding_asym.AsymTightBindingModel.__mul__",
    "tight_binding_asym.AsymTightBindingModel.band_count",
    "tight_binding_asym.AsymTightBindingModel.bands",
    "tight_binding_asym.AsymTightBindingModel.bands_grad",
    "tight_binding_asym.AsymTightBindingModel.bands_grad_hess",
    "tight_binding_asym.AsymTightBindingModel.copy",
    "tight_binding_asym.AsymTightBindingModel.dim",
    "tight_binding_asym.AsymTightBindingModel.error",
    "tight_binding_asym.AsymTightBindingModel.init_from_ref",
    "tight_binding_asym.AsymTightBindingModel.load",
    "tight_binding_asym.AsymTightBindingModel.loss",
    "tight_binding_asym.AsymTightBindingModel.new",
    "tight_binding_asym.AsymTightBindingModel.normalize",
    "tight_binding_asym.AsymTightBindingModel.optimize",
    "tight_binding_asym.AsymTightBindingModel.optimize_cg",
    "tight_binding_asym.AsymTightBindingModel.params_complex",
    "tight_binding_asym.AsymTightBindingModel.permute",
    "tight_binding_asym.AsymTightBindingModel.print_error",
    "tight_binding_asym.AsymTightBindingModel.randomize",
    "tight_binding_asym.AsymTightBindingModel.save",
    "tight_binding_asym.AsymTightBindingModel.set_from_complex",
    "tight_binding_asym.AsymTightBindingModel.supercell",
    "tight_binding_asym.AsymTightBindingModel.transform",
    "tight_binding_asym.AsymTightBindingModel.windowed_loss",
    "tight_binding_asym.HermitianFourierSeries.__add__",
    "tight_binding_asym.HermitianFourierSeries.__init__",
    "tight_binding_asym.HermitianFourierSeries.add_neighbors",
    "tight_binding_asym.HermitianFourierSeries.cleanup_neighbors",
    "tight_binding_asym.HermitianFourierSeries.copy",
    "tight_binding_asym.HermitianFourierSeries.ddf",
    "tight_binding_asym.HermitianFourierSeries.ddf_i",
    "tight_binding_asym.HermitianFourierSeries.df",
    "tight_binding_asym.HermitianFourierSeries.df_i",
    "tight_binding_asym.HermitianFourierSeries.dim",
    "tight_binding_asym.HermitianFourierSeries.direct_sum",
    "tight_binding_asym.HermitianFourierSeries.f",
    "tight_binding_asym.HermitianFourierSeries.f_i",
    "tight_binding_asym.HermitianFourierSeries.limit_neighbor_count",
    "tight_binding_asym.HermitianFourierSeries.limit_neighbors",
    "tight_binding_asym.HermitianFourierSeries.unit_matrix",
    "tight_binding_asym.autofit_asym",
    "tight_binding_asym.free_electron_model_orthogonal",
    "unitary_representations.UnitaryRepresentation.__add__",
    "unitary_representations.UnitaryRepresentation.__init__",
    "unitary_representations.UnitaryRepresentation.__mul__",
    "unitary_representations.UnitaryRepresentation.check",
    "unitary_representations.UnitaryRepresentation.check_symmetry",
    "unitary_representations.UnitaryRepresentation.copy",
    "unitary_representations.UnitaryRepresentation.d3",
    "unitary_representations.UnitaryRepresentation.dim",
    "unitary_representations.UnitaryRepresentation.from_generator",
    "unitary_representations.UnitaryRepresentation.match_sym",
    "unitary_representations.UnitaryRepresentation.o3",
    "unitary_representations.UnitaryRepresentation.o3r",
    "unitary_representations.UnitaryRepresentation.o3ri",
    "unitary_representations.UnitaryRepresentation.one_dim",
    "unitary_representations.UnitaryRepresentation.permute",
    "unitary_representations.UnitaryRepresentation.realize_symmetric_matrices",
    "unitary_representations.UnitaryRepresentation.so3",
    "unitary_representations.UnitaryRepresentation.subspaces",
    "unitary_representations.UnitaryRepresentation.symmetrize",
    "unitary_representations.UnitaryRepresentation.symmetrize2",
    "unitary_representations.UnitaryRepresentation.symmetrizer",
    "wannier90_tb_format.load_hr",
    "wannier90_tb_format.load_tb",
    "wannier90_tb_format.save_hr",
}
