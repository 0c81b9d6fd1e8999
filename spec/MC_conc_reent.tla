---- MODULE MC_conc_reent ----
\* written by lib/scn.py
EXTENDS Conc
Scenarios == <<
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, 2, 0>>, s |-> <<<<3, 2, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"ld", 3, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, -6, -1>>, s |-> <<<<0, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"xm", 2, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, -1, -1>>, s |-> <<<<1, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<3, 1, -1>>, s |-> <<<<2, 2, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<3, -1, 0>>, s |-> <<<<3, 3, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"st", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<3, 0, -1>>, s |-> <<<<0, 2, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"cx", 1, 2, 1>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-3, 3, 0>>, s |-> <<<<3, 2, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<3, -3, -1>>, s |-> <<<<0, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>, <<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, -3, -1>>, s |-> <<<<1, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"cx", 1, 3, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, 2, -1>>, s |-> <<<<2, 2, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"xm", 1, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, -3, 0>>, s |-> <<<<0, 3, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, 0, -1>>, s |-> <<<<1, 2, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>, <<"ld", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, 2, -1>>, s |-> <<<<0, 2, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, 5, 0>>, s |-> <<<<2, 3, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"cx", 1, 3, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-3, 2, 0>>, s |-> <<<<3, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"xm", 1, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, 3, -1>>, s |-> <<<<2, 2, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"xm", 1, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, 5, 0>>, s |-> <<<<3, 2, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"st", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, -1, 0>>, s |-> <<<<3, 3, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-6, 3, -1>>, s |-> <<<<0, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, 1, -1>>, s |-> <<<<1, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-3, 1, -1>>, s |-> <<<<2, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<3, 5, 0>>, s |-> <<<<3, 2, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>, <<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-2, 3, -1>>, s |-> <<<<0, 2, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"cx", 1, 3, 1>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, -3, 0>>, s |-> <<<<3, 3, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"cx", 1, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-3, 0, 0>>, s |-> <<<<3, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>, <<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-2, 1, 0>>, s |-> <<<<3, 2, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, -1, -1>>, s |-> <<<<1, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"cx", 1, 3, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-4, 5, 0>>, s |-> <<<<3, 2, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"ld", 3, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, -4, 0>>, s |-> <<<<3, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"sn", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, -3, -1>>, s |-> <<<<0, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<3, 3, 0>>, s |-> <<<<3, 2, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"ld", 3, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-4, 5, 0>>, s |-> <<<<3, 3, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>, <<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-3, 2, 0>>, s |-> <<<<3, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>, <<"xm", 2, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, 1, -1>>, s |-> <<<<2, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"ld", 3, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, -6, 0>>, s |-> <<<<3, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"cx", 1, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, 2, -1>>, s |-> <<<<2, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, -3, 0>>, s |-> <<<<1, 3, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, 0, -1>>, s |-> <<<<1, 2, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"sn", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<3, -1, 0>>, s |-> <<<<3, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, -1, 0>>, s |-> <<<<3, 3, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>, <<"cx", 1, 2, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<3, -4, 0>>, s |-> <<<<3, 3, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-4, 5, 0>>, s |-> <<<<3, 3, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"cx", 1, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-4, 3, 0>>, s |-> <<<<3, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"xm", 2, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, -6, -1>>, s |-> <<<<1, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-2, 1, 0>>, s |-> <<<<3, 3, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<3, -1, -1>>, s |-> <<<<1, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, 1, 0>>, s |-> <<<<1, 3, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, 5, 0>>, s |-> <<<<3, 2, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, -6, 0>>, s |-> <<<<3, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-3, 3, -1>>, s |-> <<<<2, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, 3, 0>>, s |-> <<<<2, 3, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"cx", 1, 3, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, -6, 0>>, s |-> <<<<3, 3, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"cm", 1, 1, 2>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, -3, -1>>, s |-> <<<<1, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>, <<"cx", 1, 3, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-4, 2, 0>>, s |-> <<<<3, 2, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>, <<"xm", 1, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-4, 1, 0>>, s |-> <<<<0, 3, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"ld", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-2, 2, -1>>, s |-> <<<<0, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>, <<"st", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, 5, 0>>, s |-> <<<<3, 2, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"cx", 1, 2, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, -2, 0>>, s |-> <<<<3, 3, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>, <<"sn", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-6, 1, 0>>, s |-> <<<<0, 3, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>, <<"cx", 1, 3, 1>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<3, 5, -1>>, s |-> <<<<0, 2, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<3, -3, 0>>, s |-> <<<<3, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"st", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-3, 3, -1>>, s |-> <<<<0, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>, <<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-6, 1, 0>>, s |-> <<<<3, 3, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"xm", 1, 1, 1>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-3, 2, -1>>, s |-> <<<<2, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"st", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-3, 3, 0>>, s |-> <<<<2, 3, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, -2, 0>>, s |-> <<<<3, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"st", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-6, 2, 0>>, s |-> <<<<3, 3, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"xc", 1, 1, 2>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, 3, 0>>, s |-> <<<<3, 2, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"cx", 1, 1, 2>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-6, 5, -1>>, s |-> <<<<0, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"ld", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, -6, 0>>, s |-> <<<<1, 3, 0>>>>, w |-> <<<<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-2, 3, -1>>, s |-> <<<<2, 2, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-4, 3, 0>>, s |-> <<<<3, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-6, 2, 0>>, s |-> <<<<3, 2, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-2, 2, 0>>, s |-> <<<<3, 2, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-6, 1, -1>>, s |-> <<<<2, 2, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-2, 5, -1>>, s |-> <<<<0, 2, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-2, 3, 0>>, s |-> <<<<3, 2, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-4, 0, 0>>, s |-> <<<<0, 3, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"cx", 1, 2, 1>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-6, 1, 0>>, s |-> <<<<3, 0, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>, <<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-3, 0, 0>>, s |-> <<<<0, 3, 0>>>>, w |-> <<<<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>, <<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<3, -3, 0>>, s |-> <<<<3, 0, 0>>, <<0, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, 5, 0>>, s |-> <<<<0, 3, 0>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, -1, 0>>, s |-> <<<<3, 3, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, 1, 0>>, s |-> <<<<2, 2, 0>>, <<1, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>>>, <<<<"st", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, 3, 0>>, s |-> <<<<0, 2, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>, <<"en", 0, 0, 0>>>>, <<<<"ld", 3, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, 5, -1>>, s |-> <<<<0, 2, 0>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>>>, <<<<"st", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, 0, 0>>, s |-> <<<<0, 3, 0>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>>>, <<<<"xc", 1, 1, 2>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, -4, 0>>, s |-> <<<<1, 3, 0>>, <<1, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<3, 5, 0>>, s |-> <<<<3, 2, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>>>, <<<<"cm", 1, 1, 2>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-4, 0, 0>>, s |-> <<<<0, 0, 0>>, <<2, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, 2, 0>>, s |-> <<<<2, 0, 0>>, <<0, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>>>, <<<<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, -1, 0>>, s |-> <<<<3, 3, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 2, 0>>>>, <<<<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, 3, 0>>, s |-> <<<<0, 3, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>>>, <<<<"st", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, 3, -1>>, s |-> <<<<1, 2, 0>>, <<2, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>>>, <<<<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-3, 5, 0>>, s |-> <<<<3, 3, 0>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, 3, 0>>, s |-> <<<<3, 2, 0>>, <<1, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cm", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<3, 0, 0>>, s |-> <<<<3, 3, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>>>, <<<<"cx", 1, 1, 2>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, 2, 0>>, s |-> <<<<2, 3, 0>>, <<1, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-4, 2, 0>>, s |-> <<<<2, 3, 0>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>>>, <<<<"cx", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, 2, 0>>, s |-> <<<<3, 2, 0>>, <<2, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>>>, <<<<"st", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<3, -4, 0>>, s |-> <<<<0, 3, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>>>, <<<<"xm", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, -3, 0>>, s |-> <<<<0, 0, 0>>, <<1, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>>>, <<<<"st", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, 0, -1>>, s |-> <<<<1, 0, 0>>, <<0, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-2, 3, 0>>, s |-> <<<<2, 2, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-2, 2, 0>>, s |-> <<<<2, 2, 0>>, <<0, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>>>, <<<<"ld", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<3, 0, 0>>, s |-> <<<<3, 3, 0>>, <<2, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>>>, <<<<"cx", 1, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, -6, 0>>, s |-> <<<<3, 0, 0>>, <<1, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>>>, <<<<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, 2, 0>>, s |-> <<<<3, 0, 0>>, <<2, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>>>, <<<<"st", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, 3, -1>>, s |-> <<<<1, 2, 0>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-4, 2, -1>>, s |-> <<<<2, 2, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, 0, -1>>, s |-> <<<<1, 2, 0>>, <<0, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-4, 1, 0>>, s |-> <<<<0, 0, 0>>, <<3, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, 5, -1>>, s |-> <<<<0, 0, 0>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>>>, <<<<"xm", 1, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, 3, 0>>, s |-> <<<<2, 3, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"xm", 2, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, 5, 0>>, s |-> <<<<0, 2, 0>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>>>, <<<<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, 3, 0>>, s |-> <<<<1, 2, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>>>, <<<<"cx", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<3, -4, 0>>, s |-> <<<<1, 0, 0>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>>>, <<<<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, 5, 0>>, s |-> <<<<0, 3, 0>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-2, 2, 0>>, s |-> <<<<0, 2, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>>>, <<<<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, 0, 0>>, s |-> <<<<3, 3, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>>>, <<<<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-3, 0, 0>>, s |-> <<<<0, 2, 0>>, <<3, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 1, 2>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, 1, 0>>, s |-> <<<<1, 3, 0>>, <<3, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>>>, <<<<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<3, 0, 0>>, s |-> <<<<2, 2, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, 1, 0>>, s |-> <<<<0, 3, 0>>, <<2, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>>>, <<<<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-6, 1, 0>>, s |-> <<<<3, 2, 0>>, <<2, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>>>, <<<<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, 1, 0>>, s |-> <<<<1, 3, 0>>, <<0, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>>>, <<<<"cx", 1, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, 2, 0>>, s |-> <<<<2, 2, 0>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>>>, <<<<"xc", 1, 1, 2>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, -1, -1>>, s |-> <<<<1, 0, 0>>, <<1, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>>>, <<<<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-4, 0, 0>>, s |-> <<<<3, 2, 0>>, <<3, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"ld", 3, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<3, 1, 0>>, s |-> <<<<3, 0, 0>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>>>, <<<<"cx", 1, 2, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, 3, 0>>, s |-> <<<<0, 3, 0>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>>>, <<<<"cx", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, -2, 0>>, s |-> <<<<3, 0, 0>>, <<0, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>>>, <<<<"cx", 1, 2, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-4, 1, 0>>, s |-> <<<<2, 2, 0>>, <<0, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cm", 1, 1, 2>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-3, 0, 0>>, s |-> <<<<2, 0, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>>>, <<<<"xc", 1, 1, 2>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, -6, 0>>, s |-> <<<<0, 3, 0>>, <<0, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>>>, <<<<"ld", 3, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, 1, 0>>, s |-> <<<<3, 2, 0>>, <<0, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>>>, <<<<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, -1, 0>>, s |-> <<<<1, 3, 0>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<3, -1, 0>>, s |-> <<<<3, 0, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>>>, <<<<"xm", 1, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-4, 3, 0>>, s |-> <<<<3, 2, 0>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>>>, <<<<"cx", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, 1, 0>>, s |-> <<<<1, 2, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>>>, <<<<"cx", 1, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, 1, 0>>, s |-> <<<<3, 0, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>>>, <<<<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, 0, -1>>, s |-> <<<<2, 2, 0>>, <<0, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>>>, <<<<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, 3, 0>>, s |-> <<<<0, 2, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, -3, 0>>, s |-> <<<<0, 0, 0>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"ld", 3, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-3, 2, 0>>, s |-> <<<<2, 3, 0>>, <<0, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, -1, 0>>, s |-> <<<<0, 0, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>>>, <<<<"sn", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, 1, 0>>, s |-> <<<<1, 2, 0>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>>>, <<<<"cm", 1, 1, 2>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<3, 1, 0>>, s |-> <<<<3, 2, 0>>, <<3, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, 0, 0>>, s |-> <<<<0, 3, 0>>, <<2, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>>>, <<<<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, 1, 0>>, s |-> <<<<3, 2, 0>>, <<3, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>>>, <<<<"cx", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<3, 1, -1>>, s |-> <<<<1, 2, 0>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>>>, <<<<"cx", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, 3, 0>>, s |-> <<<<3, 2, 0>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>, <<"en", 0, 0, 0>>>>, <<<<"xc", 1, 1, 2>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, 2, 0>>, s |-> <<<<2, 3, 0>>, <<0, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"xm", 2, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-4, 1, 0>>, s |-> <<<<3, 0, 0>>, <<3, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-2, 1, 0>>, s |-> <<<<3, 2, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>>>, <<<<"sn", 1, 0, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-2, 3, 0>>, s |-> <<<<2, 3, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>>>, <<<<"cx", 1, 2, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, 3, 0>>, s |-> <<<<1, 2, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>>>, <<<<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, 5, -1>>, s |-> <<<<2, 2, 0>>, <<2, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, 1, 0>>, s |-> <<<<3, 2, 0>>, <<1, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>>>, <<<<"st", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-6, 0, 0>>, s |-> <<<<3, 0, 0>>, <<2, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 1>>>>, <<<<"xm", 2, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-3, 3, 0>>, s |-> <<<<3, 3, 0>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 1, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"ld", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-6, 3, -1>>, s |-> <<<<0, 0, 0>>, <<2, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>>>, <<<<"xc", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-2, 1, 0>>, s |-> <<<<0, 0, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, 1, 0>>, s |-> <<<<2, 0, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 2, 1>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, 3, 0>>, s |-> <<<<1, 3, 0>>, <<3, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 3, 1, 0>>>>, <<<<"sm", 1, 1, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<3, 3, 0>>, s |-> <<<<3, 2, 0>>, <<0, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>>>, <<<<"st", 1, 2, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, 0, -1>>, s |-> <<<<0, 2, 0>>, <<1, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>, <<"en", 0, 0, 0>>>>, <<<<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, -6, 0>>, s |-> <<<<0, 3, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"ld", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"xc", 1, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, 2, 0>>, s |-> <<<<3, 2, 0>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sm", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 3, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, 2, 0>>, s |-> <<<<3, 2, 0>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"st", 1, 2, 0>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-6, 1, 0>>, s |-> <<<<3, 2, 0>>, <<0, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"xc", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, 2, 0>>, s |-> <<<<0, 3, 0>>, <<2, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"st", 1, 1, 0>>, <<"en", 0, 0, 0>>>>, <<<<"xm", 2, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-2, 0, 0>>, s |-> <<<<3, 0, 0>>, <<2, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xm", 2, 1, 1>>, <<"en", 0, 0, 0>>>>, <<<<"cx", 1, 1, 1>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, -6, 0>>, s |-> <<<<3, 3, 0>>, <<1, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>>>, <<<<"cx", 1, 2, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<2, 2, 0>>, s |-> <<<<3, 2, 0>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 3, 1>>>>, <<<<"cx", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<1, 1, 0>>, s |-> <<<<2, 3, 0>>, <<3, 2, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>>>, <<<<"cx", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<3, 5, 0>>, s |-> <<<<0, 2, 0>>, <<1, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"xc", 1, 1, 2>>, <<"en", 0, 0, 0>>>>, <<<<"sn", 1, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<-6, 5, 0>>, s |-> <<<<2, 3, 0>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<2>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"sn", 1, 0, 0>>>>, <<<<"xm", 1, 1, 1>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<5, -1, 0>>, s |-> <<<<1, 0, 0>>, <<3, 0, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cx", 1, 1, 2>>>>, <<<<"cx", 1, 1, 2>>, <<"en", 0, 0, 0>>>>>>, c |-> <<0, <<0, 0>>>>],
 [v |-> <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>, o |-> <<3, 1, 0>>, s |-> <<<<2, 3, 0>>, <<3, 3, 0>>>>, w |-> <<<<0>>, <<0>>>>, q |-> <<1>>, g |-> <<>>, h |-> <<>>, p |-> <<<<<<"cm", 1, 1, 2>>>>, <<<<"cm", 1, 1, 2>>>>>>, c |-> <<0, <<0, 0>>>>] >>
====
