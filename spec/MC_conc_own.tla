---- MODULE MC_conc_own ----
\* written by lib/scn.py
EXTENDS Conc
Scenarios == <<
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wr", 1, 0, 0>>, <<"mb", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"uc", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<4, 0, -1>>, s |-> <<<<0, 2>>, <<1, 2>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cp", 2, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"mk", 2, 3, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wr", 1, 0, 0>>, <<"wk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 1, 2, 0>>, <<"mb", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cp", 2, 1, 0>>, <<"mk", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<0, 2>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ex", 1, 0, 0>>, <<"wk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"uc", 1, 0, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wk", 2, 1, 0>>, <<"wk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"uc", 1, 0, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, -1>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mk", 1, 2, 0>>, <<"mb", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sw", 1, 2, 0>>, <<"mk", 1, 3, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wm", 2, 1, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cp", 1, 2, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wk", 2, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"sw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ws", 1, 2, 0>>, <<"cv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"uc", 1, 0, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"ws", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<4, 0, -1>>, s |-> <<<<1, 2>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"mk", 1, 3, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sw", 1, 2, 0>>, <<"sw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wk", 1, 1, 0>>, <<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"wk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<4, 0, -1>>, s |-> <<<<1, 2>>, <<0, 2>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wr", 1, 0, 0>>, <<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mk", 2, 3, 0>>, <<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"us", 1, 0, 0>>, <<"wk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"mv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 1, 1, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ws", 1, 2, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, -1>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"us", 1, 0, 0>>, <<"mk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mk", 2, 3, 0>>, <<"wm", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<0, 2>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"us", 1, 0, 0>>, <<"cp", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sw", 1, 2, 0>>, <<"cv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cv", 2, 1, 0>>, <<"cv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 2, 1, 0>>, <<"uc", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wr", 1, 0, 0>>, <<"mb", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mk", 2, 2, 0>>, <<"sw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sw", 1, 2, 0>>, <<"sw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wr", 1, 0, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mk", 1, 2, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"uc", 1, 0, 0>>, <<"wm", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 2>>, <<1, 2>>>>, w |-> <<<<0, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 1, 1, 0>>, <<"wk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wr", 1, 0, 0>>, <<"mb", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wk", 1, 1, 0>>, <<"mk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"mv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sw", 1, 2, 0>>, <<"uc", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"us", 1, 0, 0>>, <<"wk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mk", 1, 2, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<4, 0, -1>>, s |-> <<<<1, 0>>, <<1, 2>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cp", 1, 2, 0>>, <<"wm", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mk", 1, 3, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"wk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mv", 2, 1, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"sw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"cp", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"us", 1, 0, 0>>, <<"mv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 1, 2, 0>>, <<"wk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mk", 2, 2, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mv", 2, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wk", 1, 1, 0>>, <<"cp", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"cp", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 2, 1, 0>>, <<"sw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"wm", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"wk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ws", 1, 2, 0>>, <<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 2>>, <<0, 2>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"sw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sw", 1, 2, 0>>, <<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mk", 2, 2, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wr", 1, 0, 0>>, <<"ws", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"wk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mk", 2, 2, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mb", 2, 1, 0>>, <<"wm", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mv", 2, 1, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"wm", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mb", 2, 1, 0>>, <<"mk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cp", 1, 2, 0>>, <<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wk", 2, 1, 0>>, <<"cp", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"cp", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"mb", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<4, 0, -1>>, s |-> <<<<1, 2>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cp", 2, 1, 0>>, <<"mk", 2, 3, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 2, 1, 0>>, <<"cv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<1, 2>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cp", 1, 2, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sw", 1, 2, 0>>, <<"mb", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mb", 2, 1, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wu", 1, 0, 0>>, <<"wm", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mb", 2, 1, 0>>, <<"wk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cp", 2, 1, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mk", 2, 2, 0>>, <<"wm", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<4, 0, -1>>, s |-> <<<<1, 2>>, <<1, 2>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wm", 2, 1, 0>>, <<"mk", 2, 3, 0>>, <<"en", 0, 0, 0>>>>, <<<<"uc", 1, 0, 0>>, <<"mb", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"us", 1, 0, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ws", 1, 2, 0>>, <<"wr", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"wk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wk", 2, 1, 0>>, <<"ws", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"uc", 1, 0, 0>>, <<"cv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mk", 1, 2, 0>>, <<"cp", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"mv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wm", 2, 1, 0>>, <<"sw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wk", 2, 1, 0>>, <<"wm", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mb", 2, 1, 0>>, <<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cv", 2, 1, 0>>, <<"wk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wk", 2, 1, 0>>, <<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wr", 1, 0, 0>>, <<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cv", 2, 1, 0>>, <<"cv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"ws", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wm", 2, 1, 0>>, <<"cv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"sw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wm", 2, 1, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mb", 2, 1, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wk", 1, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"mv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"us", 1, 0, 0>>, <<"wk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sw", 1, 2, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 2>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wk", 2, 1, 0>>, <<"wr", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cv", 2, 1, 0>>, <<"uc", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<0, 2>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"uc", 1, 0, 0>>, <<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"wm", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cp", 2, 1, 0>>, <<"mk", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"cp", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ws", 1, 2, 0>>, <<"cp", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"cp", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wr", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 1, 2, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wk", 2, 1, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 2, 1, 0>>, <<"sw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, -1>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mk", 1, 2, 0>>, <<"uc", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mk", 1, 3, 0>>, <<"wk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wu", 1, 0, 0>>, <<"wk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"wm", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, -1>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mk", 1, 2, 0>>, <<"wr", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mk", 1, 3, 0>>, <<"wk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mk", 1, 2, 0>>, <<"ws", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sw", 1, 2, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ws", 1, 2, 0>>, <<"sw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<0, 2>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ex", 1, 0, 0>>, <<"cp", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"sw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wk", 1, 1, 0>>, <<"cp", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mv", 2, 1, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sw", 1, 2, 0>>, <<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mv", 2, 1, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mb", 2, 1, 0>>, <<"wr", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cv", 2, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cv", 2, 1, 0>>, <<"uc", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wk", 2, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<4, 0, -1>>, s |-> <<<<1, 2>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mk", 2, 3, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wk", 1, 1, 0>>, <<"mb", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wr", 1, 0, 0>>, <<"wk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"uc", 1, 0, 0>>, <<"cp", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 2, 1, 0>>, <<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wk", 1, 1, 0>>, <<"sw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"cp", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wr", 1, 0, 0>>, <<"uc", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wu", 1, 0, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mb", 2, 1, 0>>, <<"wk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"mb", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 2, 1, 0>>, <<"mb", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"us", 1, 0, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mk", 1, 2, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cp", 1, 2, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cp", 2, 1, 0>>, <<"mb", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"uc", 1, 0, 0>>, <<"uc", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"wm", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 1, 2, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"wk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ex", 1, 0, 0>>, <<"wk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"uc", 1, 0, 0>>, <<"mk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"sw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"uc", 1, 0, 0>>, <<"mk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ex", 1, 0, 0>>, <<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"cp", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<4, 0, -1>>, s |-> <<<<1, 2>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cv", 2, 1, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wk", 2, 1, 0>>, <<"mk", 1, 3, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, -1>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 1, 1, 0>>, <<"mk", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"mk", 1, 3, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<4, 0, -1>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mk", 2, 3, 0>>, <<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ws", 1, 2, 0>>, <<"wr", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wr", 1, 0, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sw", 1, 2, 0>>, <<"uc", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ex", 1, 0, 0>>, <<"mb", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 1, 2, 0>>, <<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"uc", 1, 0, 0>>, <<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sw", 1, 2, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, -1>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"mk", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wr", 1, 0, 0>>, <<"mk", 2, 3, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wk", 1, 1, 0>>, <<"wk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wm", 2, 1, 0>>, <<"wr", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wk", 2, 1, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mk", 2, 2, 0>>, <<"wm", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wk", 2, 1, 0>>, <<"wr", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cp", 2, 1, 0>>, <<"mk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"wm", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<1, 2>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sw", 1, 2, 0>>, <<"cp", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"uc", 1, 0, 0>>, <<"cp", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"uc", 1, 0, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sw", 1, 2, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ws", 1, 2, 0>>, <<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"wk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"cv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mb", 2, 1, 0>>, <<"wk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<4, 0, -1>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mv", 2, 1, 0>>, <<"mv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mk", 2, 3, 0>>, <<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wu", 1, 0, 0>>, <<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mk", 2, 2, 0>>, <<"uc", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mb", 2, 1, 0>>, <<"mk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sw", 1, 2, 0>>, <<"mb", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wu", 1, 0, 0>>, <<"uc", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"sw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"uc", 1, 0, 0>>, <<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 1, 2, 0>>, <<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wr", 1, 0, 0>>, <<"wm", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"cp", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mv", 2, 1, 0>>, <<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 2, 1, 0>>, <<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"wk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"sw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"mv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"cv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"uc", 1, 0, 0>>, <<"mk", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"us", 1, 0, 0>>, <<"mv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 1, 1, 0>>, <<"cv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wk", 1, 1, 0>>, <<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wr", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cp", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wr", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ws", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ws", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"uc", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mk", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ws", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<4, 0, -1>>, s |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mk", 2, 3, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wr", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wm", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wr", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wr", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ws", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mb", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ws", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wr", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ws", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mb", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wm", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<4, 0, -1>>, s |-> <<<<1, 2>>, <<0, 0>>, <<0, 2>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wr", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mk", 2, 3, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wm", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mb", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<1, 2>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wm", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wr", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wr", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mb", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"uc", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"uc", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, -1>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mk", 2, 3, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wr", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mb", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"uc", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"uc", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ws", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ws", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mb", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mk", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"uc", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"uc", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ws", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 2>>, <<1, 2>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mb", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ws", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 2>>, <<0, 2>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 2>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mb", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 2>>, <<1, 0>>, <<1, 2>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"uc", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<4, 0, -1>>, s |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mk", 2, 3, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wr", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<0, 0>>, <<0, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mk", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ws", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mk", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"uc", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mk", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cp", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wr", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 2>>, <<0, 2>>, <<0, 2>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ws", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 2>>, <<0, 0>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wm", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"uc", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wr", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<0, -1>>, s |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mk", 2, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ws", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sw", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<1, 0>>, <<0, 2>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"uc", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cp", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ws", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<0, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wk", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wu", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<0, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cv", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wr", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<0, -1, -1>>, s |-> <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>, w |-> <<<<0, 0>>, <<0, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"wc", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mk", 1, 2, 0>>, <<"en", 0, 0, 0>>>>, <<<<"mk", 1, 3, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>>>, o |-> <<4, 0>>, s |-> <<<<0, 0>>, <<1, 0>>, <<1, 2>>>>, w |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"rs", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ex", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"uc", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"us", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"wk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>],
 [v |-> <<<<1, 1>>>>, o |-> <<0>>, s |-> <<<<1, 0>>, <<1, 0>>, <<1, 0>>>>, w |-> <<<<0, 0>>, <<1, 0>>, <<1, 0>>>>, q |-> <<>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"mb", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"lk", 2, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ws", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0, 0>>>>] >>
====
