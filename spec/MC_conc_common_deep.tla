---- MODULE MC_conc_common_deep ----
\* written by lib/scn.py
EXTENDS Conc
Scenarios == <<
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"gk", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gw", 1, 1, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gl", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gu", 1, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"rs", 1, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"gl", 1, 1, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"gk", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gx", 2, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gv", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gl", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"gv", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"gx", 2, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gu", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"gc", 2, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"gw", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"gw", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"gl", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"gw", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"gw", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"rs", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gl", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gx", 1, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"rs", 1, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gl", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gf", 1, 1, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"gl", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"rs", 1, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"gl", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"rs", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"lk", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"lk", 2, 1, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gv", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"go", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"gw", 1, 2, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"gk", 1, 1, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gw", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"go", 1, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"gx", 1, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"lk", 2, 1, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"gc", 2, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"gk", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"gv", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"lk", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"gx", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gc", 2, 2, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"go", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"lk", 2, 1, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"gk", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"gu", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gw", 1, 1, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gv", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"gf", 1, 1, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"lk", 2, 1, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gv", 1, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"go", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gw", 1, 1, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"go", 1, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"rs", 1, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"gk", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"gc", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gl", 1, 1, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gc", 2, 2, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"gw", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gx", 1, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"rs", 1, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"gw", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"go", 1, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gl", 1, 2, 0>>>>, <<<<"go", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"gc", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"rs", 1, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gv", 1, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gl", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"gc", 2, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"gu", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gk", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"gu", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"lk", 2, 1, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"rs", 1, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gw", 1, 1, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gw", 1, 1, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gw", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gc", 2, 2, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gu", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gu", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"gx", 2, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"gw", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"gw", 1, 1, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"go", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gv", 1, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gv", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"gu", 1, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"rs", 1, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"gv", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gu", 1, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gl", 1, 1, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gl", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"rs", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"rs", 1, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"rs", 1, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"rs", 1, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gk", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gl", 1, 2, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"go", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"gl", 1, 2, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gw", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gl", 1, 1, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gu", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gc", 2, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gx", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gc", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gw", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"gx", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"lk", 2, 1, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"lk", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gk", 1, 1, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gk", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gw", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gu", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"gl", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gx", 1, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"gx", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"gw", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gk", 1, 1, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"gl", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"gk", 1, 1, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"rs", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"gl", 1, 1, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"gk", 1, 1, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gx", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"gl", 2, 1, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gu", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gu", 1, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"rs", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gc", 2, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gk", 1, 1, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"gc", 2, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"go", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"gk", 1, 1, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"gv", 1, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"go", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gf", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gf", 1, 1, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"go", 1, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gx", 2, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"lk", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gx", 1, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gf", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gx", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"gx", 1, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"gx", 2, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"rs", 1, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gw", 1, 1, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gx", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"go", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"go", 1, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"gv", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"gu", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"rs", 1, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"gu", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"lk", 2, 1, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"gc", 2, 2, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gl", 1, 2, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"gx", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gc", 1, 1, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gu", 1, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gu", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"lk", 2, 1, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"lk", 2, 1, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"rs", 1, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"gw", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gf", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gu", 1, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gv", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gf", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gx", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"lk", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"go", 1, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gf", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"go", 1, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gx", 2, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gv", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"go", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gc", 2, 2, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"gl", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"gc", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"gc", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"rs", 1, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gl", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gl", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gl", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"rs", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"gk", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gc", 1, 1, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gv", 2, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gw", 1, 2, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gx", 2, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gl", 2, 1, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"go", 1, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"gu", 1, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"lk", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"lk", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"rs", 1, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gv", 2, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gl", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gx", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"go", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"go", 1, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"gv", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"gv", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gf", 1, 1, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"go", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gx", 2, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gw", 1, 2, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"go", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"rs", 1, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"go", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gv", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"gl", 1, 2, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gx", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gv", 2, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gu", 1, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"gv", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gu", 1, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gf", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gk", 1, 1, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"gu", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gv", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gx", 2, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gv", 2, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gf", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gk", 1, 1, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"gl", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gv", 1, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gu", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gv", 1, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gu", 1, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"gl", 1, 1, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gf", 1, 1, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"gl", 2, 1, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"gu", 1, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"rs", 1, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gc", 2, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gw", 1, 1, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"gu", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gc", 2, 2, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"gc", 1, 1, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gv", 2, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"gl", 1, 1, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"rs", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"gk", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"gv", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gl", 1, 2, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gf", 1, 1, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gc", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"gv", 2, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gl", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"go", 1, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"gw", 1, 2, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"rs", 1, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"gw", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"go", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gl", 1, 1, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gc", 2, 2, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"gu", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"go", 1, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"gw", 1, 2, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"gx", 2, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gk", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"lk", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gl", 2, 1, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gx", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"go", 1, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"rs", 1, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"gv", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gc", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gx", 2, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"gx", 1, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gl", 1, 1, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"gw", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gl", 2, 1, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gu", 1, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gv", 1, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gc", 2, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"gc", 2, 2, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"go", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gu", 1, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gf", 1, 1, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"gx", 1, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"rs", 1, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"rs", 1, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"gl", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gk", 1, 1, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"rs", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"lk", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"rs", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gc", 1, 1, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gk", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"gc", 2, 2, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"gl", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"gx", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gx", 2, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"gc", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gk", 1, 1, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"gc", 2, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"rs", 1, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"gw", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"gf", 1, 1, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gl", 1, 1, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"gk", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gl", 1, 1, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gf", 1, 1, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"gw", 1, 1, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"gc", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gv", 2, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gf", 1, 1, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"gw", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gu", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gl", 2, 1, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"gv", 1, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gc", 2, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"gv", 1, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gx", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"gl", 1, 2, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gx", 2, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"gx", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"gl", 2, 1, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"go", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"gl", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"lk", 2, 1, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gc", 2, 2, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"lk", 2, 1, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"gc", 1, 1, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"gw", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"lk", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gl", 1, 2, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"gc", 2, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gx", 2, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"rs", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"gv", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gv", 1, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"lk", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gx", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gl", 2, 1, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gx", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"gc", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"gw", 1, 1, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"rs", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gv", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"gc", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"gc", 2, 2, 0>>>>, <<<<"go", 1, 0, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"gx", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"gl", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"gf", 1, 1, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gc", 2, 2, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>>>, <<<<"gx", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"lk", 2, 1, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gv", 1, 0, 0>>>>, <<<<"rs", 1, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gx", 1, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"go", 1, 0, 0>>>>, <<<<"gv", 2, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>>>, <<<<"gk", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gk", 1, 1, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"lk", 2, 1, 0>>>>, <<<<"gf", 1, 1, 0>>>>, <<<<"gw", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>>>, <<<<"gl", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gc", 2, 2, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>>>, <<<<"gx", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gw", 1, 1, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gv", 2, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gv", 2, 0, 0>>>>, <<<<"gx", 1, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"lk", 2, 1, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gx", 1, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>>>, <<<<"gx", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gx", 2, 0, 0>>>>, <<<<"rs", 1, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"lk", 2, 1, 0>>>>, <<<<"gl", 1, 1, 0>>>>, <<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gf", 1, 1, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gc", 1, 1, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"lk", 2, 1, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gx", 2, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gk", 1, 1, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gu", 1, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 1, 2, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gl", 2, 1, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gc", 2, 2, 0>>>>, <<<<"gk", 1, 1, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gl", 1, 2, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"lk", 2, 1, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gv", 2, 0, 0>>>>, <<<<"gw", 1, 1, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gk", 1, 1, 0>>>>, <<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"go", 1, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"rs", 1, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gf", 1, 1, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gl", 1, 2, 0>>>>, <<<<"gv", 2, 0, 0>>>>, <<<<"gl", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gw", 1, 2, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"go", 1, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"lk", 2, 1, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<1, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gc", 2, 2, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"go", 1, 0, 0>>>>, <<<<"gx", 1, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gu", 1, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>>>, <<<<"gl", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gv", 1, 0, 0>>>>, <<<<"gw", 1, 2, 0>>>>, <<<<"gw", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gv", 1, 0, 0>>>>, <<<<"lk", 2, 1, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gf", 1, 1, 0>>>>, <<<<"rs", 1, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>>>, <<<<"gx", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gl", 1, 2, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 1, 2, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 1, 1, 0>>>>, <<<<"gk", 1, 1, 0>>>>, <<<<"gk", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>>>, <<<<"gx", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gv", 1, 0, 0>>>>, <<<<"gc", 1, 1, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gv", 1, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gv", 2, 0, 0>>>>, <<<<"gv", 2, 0, 0>>>>, <<<<"gx", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<1, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gl", 2, 1, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<1, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>>>, <<<<"gw", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 1>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>>>, <<<<"gw", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gk", 1, 1, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gx", 1, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gw", 1, 2, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gv", 1, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gv", 1, 0, 0>>>>, <<<<"gx", 1, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gc", 1, 1, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gk", 1, 1, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gx", 2, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gl", 1, 1, 0>>>>, <<<<"gx", 1, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gf", 1, 1, 0>>>>, <<<<"gl", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>>>, <<<<"gw", 1, 2, 0>>>>, <<<<"gc", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gw", 1, 1, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<1>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gc", 1, 1, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gk", 1, 1, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gl", 2, 1, 0>>>>, <<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<2>>, <<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gk", 1, 1, 0>>>>, <<<<"gc", 2, 2, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<2>>, <<0>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>>>, <<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"rs", 1, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 2>>, p |-> <<<<<<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gk", 1, 1, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<0>>, <<1>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 1>>, p |-> <<<<<<"gl", 2, 1, 0>>>>, <<<<"gu", 1, 0, 0>>>>, <<<<"gw", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 2>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gw", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<1>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 1>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<1>>, <<2>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 2>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<2, 0>>>>, w |-> <<<<0>>, <<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gl", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>, <<0>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 2>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<0>>, <<1>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<1, 0>>, p |-> <<<<<<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gx", 2, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<0, 0>>, <<2, 0>>, <<1, 0>>>>, w |-> <<<<1>>, <<0>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 0>>, p |-> <<<<<<"gc", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gv", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<2>>, <<1>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<1, 0>>, p |-> <<<<<<"gx", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gc", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<1, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<2>>, <<2>>, <<2>>>>, q |-> <<>>, g |-> <<1, 0>>, h |-> <<2, 0>>, p |-> <<<<<<"gv", 2, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"gk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, 0>>, s |-> <<<<2, 0>>, <<2, 0>>, <<0, 0>>>>, w |-> <<<<0>>, <<1>>, <<0>>>>, q |-> <<>>, g |-> <<1, 1>>, h |-> <<2, 1>>, p |-> <<<<<<"gf", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"go", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>] >>
====
