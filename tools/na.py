NA = {
 'P34': 'The reported value is an iterative eigenvalue of complex matrices obtained from LAPACK and transcendental functions over a sampled '
        'frequency range; no contract within reach of the verifier states "largest magnitude eigenvalue over all frequencies", and the pieces '
        'that are linear algebra (products, solves, identity, zeroing) are already decided by P10.',
 'P33': 'The writers and readers live on HDF5 and pugixml, whose state (files, dynamic XML trees) has no contract here; the data that is '
        'written and restored is decided at the container level by P26, P27 and P30.',
}
