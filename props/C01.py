from props import evalfast
ID = "C01"
LEVEL = "proof"
HARNESS = "C01.cpp"
TUS = ["srreal/PQEvaluator.cpp"]
SPECS = [evalfast.complementary] + evalfast.updates + [evalfast.completely_]
BOUNDED = ["the combination with each calculator's own value and with its change counter: random histories of edits, reconfigurations, masks and evaluations on random structures, compared with a fresh calculator"]
ASSUMPTIONS = ["the generator of a structure yields the bonds of the anchor with the selected sites, site by site in the order of the selection (C04)",
               "StructureDifference lists the sites that differ, each once, in increasing order (C15)",
               "the change counter is newer than the value whenever the configuration changed (C07)",
               "the mask of a pair that is in both structures is the same for both (C03)",
               "stash and restore keep the value (C08 for PDFCalculator)",
               "contributions of equal bonds are equal and add up (each calculator's own property); real arithmetic"]
