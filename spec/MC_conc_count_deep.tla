---- MODULE MC_conc_count_deep ----
\* written by lib/scn.py
EXTENDS Conc
Scenarios == <<
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>>>, w |-> <<<<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<0, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<2, <<1, 1, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cz", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cz", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cc", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cc", 0, 0, 0>>>>>>, c |-> <<2, <<1, 0, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<1, 0, 0>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cd", 0, 0, 0>>, <<"cz", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cc", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<3, <<1, 1, 1>>>>],
 [v |-> <<>>, o |-> <<>>, s |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>, <<<<"cd", 0, 0, 0>>, <<"ci", 0, 0, 0>>>>, <<<<"ci", 0, 0, 0>>, <<"cd", 0, 0, 0>>>>>>, c |-> <<1, <<0, 0, 1>>>>] >>
====
