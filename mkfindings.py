"""Generates known_findings.json (fixed entries suppress nothing)."""
import json, os
F = [
 ("C15","d15a5ae","the expanded matrix of a lossy interferometer was not unitary"),
 ("C14","45ec040","state counts were computed in floats and wrong beyond 2**53"),
 ("C20","9f79b41","get_prime_factors returned floats and composite rests"),
 ("C12","ec16b77","BOBS added the approximated particles of earlier simulate calls to later ones"),
 ("C11","c6741c1","BOBS returned more or fewer samples than requested when the thread number does not divide it"),
 ("C07","c4dded8","BOBS divided by zero on a totally lossy interferometer"),
 ("C09","e43330f","uniform-loss BOBS weighted lossy bunched inputs wrongly"),
 ("C09","eca00d4","uniform-loss BOBS failed at hierarchy levels 0 and m"),
 ("C09","e05ed8f","uniform-loss BOBS did not smear the approximated modes"),
 ("C17","0f99c82","the factory gave uniform-loss BOBS products the factory's own permanent calculator"),
 ("C20","a1049d6","get_prime_factors failed beyond 64 bits"),
 ("C16","0bfe85b","the sample-based calculator ignored the configured number of samples"),
 ("C16","b378e09","the sample-based calculator reported no outcomes by default"),
 ("C18","66ca6cf","not-computed markers (-1) were counted as negative weight"),
 ("C18","2d02f58","the unweighted distribution never filled the vacuum and was wrongly normalised"),
 ("C18","be8fcd5","the unweighted distribution never returned at transmissivity 0"),
 ("C19","9f73c50","a draw just below 1 left more particles than the input had (uniform-loss version B)"),
 ("C19","6f805bb","a draw just below 1 made the BOBS loss choice return None"),
 ("C19","919e9dc","a draw of 0 made the fixed-loss sampler return impossible outcomes, one just below 1 lost a particle in a lossless network"),
 ("C17","420c875","the factory did not pass the thread number to BOBS"),
 ("C14","1b3322f","the vacuum was returned as a lossy input with a positive number of particles left"),
 ("C21","654f2c9","the R sampler was given the first n columns instead of those of the occupied modes"),
 ("C01","62f7a01","permanents of integer-typed matrices overflowed in the Ryser and Chin-Huh calculators"),
 ("C02","efc3210","submatrix permanents of integer-typed matrices overflowed"),
 ("C22","2da3c64","an interrupted unweighted distribution left the calculator lossless"),
 ("C22","fe48c86","a failed partial estimate left its outcomes behind"),
]
here = os.path.dirname(os.path.abspath(__file__))
json.dump([dict(property=p, status="fixed", commit=c, text="fixed: property=%s %s %s" % (p, c, w)) for p, c, w in F],
          open(os.path.join(here, "known_findings.json"), "w"), indent=1)
