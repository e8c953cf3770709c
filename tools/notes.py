"""Level and scope of each check, for MANIFEST.json."""
NOTES = {
    'C01': ('proof', 'All operators, norms, inverse, rejection and aliasing proved over the reals for every '
                     'quaternion and scalar. Bounded: integer dtype arithmetic and text output.'),
    'C02': ('proof', 'Rotation of vectors (single and stacks of any length per row), matrix properties and '
                     'normalisation proved over the reals for every quaternion.'),
    'C03': ('proof', 'All conversions proved over the reals for every unit quaternion, rotation matrix and '
                     'angle; elementary functions by the listed axioms.'),
    'C04': ('proof', 'Spherical and linear interpolation proved over the reals for all unit inputs and '
                     'fractions, in both the general and the nearly parallel case.'),
    'C05': ('proof', 'Dual quaternion operators, inverse, norm, unit closure, matrices of products and inverses, '
                     'aliasing proved over the reals for all operands.'),
    'C06': ('proof', 'All conversions between poses, matrices and dual quaternions and the point maps proved over '
                     'the reals at every rotation angle.'),
    'C07': ('proof', 'Screw parameters, scalar part and frame independence proved over the reals for every unit '
                     'dual quaternion; elementary functions by the listed axioms.'),
    'C08': ('proof', 'Alignment at any index and the offset map proved over the reals for paths of any length. '
                     'Bounded: the second path of an arbitrary offset, sampled.'),
    'C09': ('proof', 'The block of one pair, its kernel, rejection and the stacking of any number of blocks '
                     'proved over the reals for all dual quaternions.'),
    'C10': ('proof', 'Validity, rejection and recovery of the truth proved over the reals for any number of '
                     'pairs, given the stated facts about the singular value decomposition. Bounded companion: '
                     'up to 8 sampled pairs.'),
    'C11': ('exploration', 'Bounded: up to 12 sampled pose pairs.'),
    'C12': ('proof', 'Evaluation of an alignment for lists of any length and the error of a pair of poses proved '
                     'over the reals; the predicted poses too if the time suffices, otherwise sampled (see the '
                     'evidence of the run). Bounded: exactness on sampled true calibrations and the error '
                     'between two calibrations.'),
    'C13': ('proof', 'The random and the exhaustive search, with a stated loop contract, and the baseline proved '
                     'for any number of poses and arbitrary results of the functions they call. Bounded '
                     'companion: up to 7 sampled pose pairs, every candidate recomputed.'),
    'C14': ('proof', 'Interpolation, resampling, matching, clipping and regular sampling of paths of any '
                     'length proved over the reals. Bounded companion: up to 10 sampled poses.'),
    'C15': ('proof', 'Lag, rates, filtered signal and the whole estimate proved over the reals for signals and '
                     'paths of any length; correlate, percentile and argmax by listed contracts. Bounded '
                     'companion: up to 60 sampled values.'),
    'C16': ('proof', 'Reading and the round trip proved for files of any number of lines; file system, csv and '
                     'savetxt by listed contracts.'),
    'C17': ('proof', 'Composition and storage proved over the reals for all calibrations; json by a listed '
                     'contract.'),
    'C18': ('proof', 'The chain of pairs, its closure and consistency proved over the reals for any number of '
                     'sensors, with a stated loop invariant. Bounded companion: up to 7 sensors, sampled.'),
    'C19': ('proof', 'Configurations, record initialisation, length checks and the lines of the table proved '
                     'by exhaustive symbolic execution for any number of records.'),
    'C20': ('proof', 'Exit status, commands that cannot be started, directories and tables proved over a ghost '
                     'file system and process table. Bounded: signals, arguments, waiting, concurrent runs, '
                     'sampled.'),
}
NOT_APPLICABLE = {}
