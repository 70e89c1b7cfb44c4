// The query table.
static Q query(unsigned k) {
    std::vector<Q> t;
    auto add = [&](std::vector<S> v, std::vector<P> c, bool d = false) { t.push_back(q(v, c, d)); };
    // basic graph patterns
    add({"?x", "?y"}, {T("?x", "p", "?y")});                                                    // 0
    add({"?x"}, {T("?x", "p", "?y")});
    add({"?x"}, {T("?x", "p", "?y")}, true);
    add({"?x", "?y", "?z"}, {T("?x", "p", "?y"), T("?y", "q", "?z")});
    add({"?x", "?z"}, {T("?x", "p", "?y"), T("?y", "q", "?z")});
    add({"?s", "?o"}, {T("?s", "?r", "?o")});                                                   // 5
    add({"?r"}, {T("a", "?r", "?o")});
    add({"?x"}, {T("?x", "p", "a"), T("?x", "q", "?y")});
    add({"?x", "?y"}, {T("?x", "p", "?y"), T("?x", "q", "?y")});
    add({"?x", "?y"}, {T("?x", "p", "?y"), T("?y", "p", "?x")});
    add({"?x"}, {T("?x", "p", "?x")});                                                           // 10
    add({"?x", "?y", "?z"}, {T("?x", "p", "?y"), T("?y", "p", "?z"), T("?x", "q", "?z")});
    add({"?x", "?y", "?z"}, {T("?x", "p", "?y"), T("?x", "q", "?z")});
    add({"?x", "?z"}, {T("?x", "p", "a"), T("?z", "q", "b")});
    add({"?x", "?r", "?y"}, {T("?x", "?r", "?y"), T("?y", "?r", "?x")});
    add({"?x"}, {T("?x", "p", "nowhere")});                                                      // 15
    add({"?x", "?w"}, {T("?x", "p", "?y"), T("?y", "p", "?z"), T("?z", "q", "?w")}, true);
    add({"?x", "?y"}, {T("?x", "p", "?y"), T("a", "q", "b")});
    // filters
    add({"?x", "?y"}, {T("?x", "p", "?y"), Eq("?x", "?y")});
    add({"?x", "?y"}, {T("?x", "p", "?y"), Ne("?x", "?y")});
    add({"?x", "?y"}, {T("?x", "p", "?y"), Eq("?x", "a")});                                      // 20
    add({"?x", "?y"}, {T("?x", "p", "?y"), Ne("?x", "a")});
    add({"?x", "?y"}, {T("?x", "p", "?y"), Or(Eq("?x", "a"), Eq("?y", "a"))});
    add({"?x", "?y"}, {T("?x", "p", "?y"), T("?y", "q", "?z"), Ne("?z", "a")});
    add({"?x"}, {T("?x", "p", "?y"), T("?x", "q", "?z"), Ne("?y", "?z")}, true);
    add({"?x", "?y"}, {T("?x", "p", "?y"), And(Ne("?x", "a"), Ne("?y", "b"))});                  // 25
    add({"?x", "?y", "?z"}, {T("?x", "p", "?y"), T("?x", "q", "?z"), Eq("?x", "a"), Ne("?y", "?z")});
    // optional
    add({"?x", "?y", "?z"}, {T("?x", "p", "?y"), Opt({T("?y", "q", "?z")})});
    add({"?x", "?z"}, {T("?x", "p", "?y"), Opt({T("?x", "q", "?z")})});
    add({"?x", "?y"}, {T("?x", "p", "?y"), Opt({T("?x", "q", "?y")})});
    add({"?x", "?y", "?z"}, {T("?x", "p", "?y"), Opt({T("?y", "q", "?z")}), Bound("?z")});        // 30
    add({"?x", "?y"}, {T("?x", "p", "?y"), Opt({T("?y", "q", "?z")}), NotBound("?z")});
    add({"?x", "?y", "?z"}, {T("?x", "p", "?y"), Opt({T("?y", "q", "?z"), T("?z", "q", "?w")})});
    add({"?x", "?y", "?z"}, {T("?x", "p", "?y"), Opt({T("?x", "q", "?y")}), Opt({T("?y", "q", "?z")})});
    add({"?x", "?y", "?z"}, {T("?x", "p", "?y"), Opt({T("?y", "q", "?z"), Ne("?z", "a")})});
    add({"?x", "?y"}, {T("?x", "p", "?y"), Opt({T("?y", "q", "nowhere")})});                      // 35
    add({"?x", "?y", "?z", "?w"}, {T("?x", "p", "?y"), Opt({T("?y", "q", "?z")}), Opt({T("?x", "q", "?w")})});
    // union
    add({"?x", "?y"}, {Uni({G({T("?x", "p", "?y")}), G({T("?x", "q", "?y")})})});
    add({"?x"}, {Uni({G({T("?x", "p", "?y")}), G({T("?z", "q", "?x")})})});
    add({"?x", "?y", "?z"}, {Uni({G({T("?x", "p", "?y")}), G({T("?x", "q", "?z")})})});
    add({"?x"}, {Uni({G({T("?x", "p", "?y")}), G({T("?x", "q", "?y")})})}, true);               // 40
    add({"?x", "?y", "?z"}, {T("?x", "p", "?y"), Uni({G({T("?y", "p", "?z")}), G({T("?y", "q", "?z")})})});
    add({"?x", "?y"}, {Uni({G({T("?x", "p", "?y")}), G({T("?x", "q", "?y")}), G({T("?y", "q", "?x")})})});
    add({"?x", "?y"}, {Uni({G({T("?x", "p", "?y"), Ne("?x", "a")}), G({T("?x", "q", "?y")})})});
    add({"?x", "?y"}, {Uni({G({T("?x", "p", "?y")}), G({T("?x", "q", "nowhere")})})});
    // minus, not exists
    add({"?x", "?y"}, {T("?x", "p", "?y"), Min({T("?x", "q", "?y")})});                          // 45
    add({"?x", "?y"}, {T("?x", "p", "?y"), Min({T("?x", "q", "?z")})});
    add({"?x", "?y"}, {T("?x", "p", "?y"), Min({T("?z", "q", "?w")})});
    add({"?x", "?y"}, {T("?x", "p", "?y"), NotEx({T("?x", "q", "?y")})});
    add({"?x", "?y"}, {T("?x", "p", "?y"), NotEx({T("?x", "q", "?z")})});
    add({"?x", "?y"}, {T("?x", "p", "?y"), Min({T("?x", "q", "?z"), T("?z", "q", "?y")})});      // 50
    add({"?x", "?y", "?z"}, {T("?x", "p", "?y"), T("?y", "p", "?z"), Min({T("?x", "q", "?z")})});
    // values
    add({"?x", "?y"}, {Val({"?x"}, {"a", "b"}), T("?x", "p", "?y")});
    add({"?x", "?y"}, {Val({"?x", "?y"}, {"a", "b", "b", "a"}), T("?x", "p", "?y")});
    add({"?x"}, {Val({"?x"}, {"a", "b"})});
    add({"?x", "?y", "?z"}, {Val({"?y"}, {"a", "b"}), T("?x", "p", "?y"), T("?y", "q", "?z")});  // 55
    add({"?x", "?y"}, {Val({"?x"}, {"a", "a"}), T("?x", "p", "?y")});
    add({"?x", "?y", "?z"}, {Val({"?x"}, {"a"}), T("?x", "p", "?y"), Opt({T("?y", "q", "?z")})});
    add({"?x", "?y"}, {Val({"?x"}, {"a"}), Val({"?y"}, {"b"}), T("?x", "p", "?y")});
    add({"?x", "?y"}, {Val({"?x"}, {"a", "nowhere"}), T("?x", "p", "?y")});
    // subselects
    add({"?x", "?y"}, {T("?x", "p", "?y"), Sub({"?y"}, {T("?y", "q", "?z")})});                  // 60
    add({"?x", "?y"}, {T("?x", "p", "?y"), Sub({"?y"}, {T("?y", "q", "?z")}, true)});
    add({"?x"}, {Sub({"?x"}, {T("?x", "p", "?y")}, true)});
    add({"?x", "?y"}, {T("?x", "p", "?y"), Sub({"?x"}, {T("?x", "q", "?y")}, true)});
    // combinations
    add({"?x", "?y", "?z"}, {Uni({G({T("?x", "p", "?y")}), G({T("?x", "q", "?y")})}), Opt({T("?y", "p", "?z")})});
    add({"?x", "?y"}, {Uni({G({T("?x", "p", "?y")}), G({T("?x", "q", "?y")})}), Min({T("?y", "p", "?x")})}); // 65
    add({"?x", "?z"}, {T("?x", "p", "?y"), Opt({T("?y", "q", "?z")})}, true);
    add({"?x", "?y"}, {G({T("?x", "p", "?y")}), T("?y", "q", "?x")});
    add({"?x", "?y", "?z"}, {T("?x", "p", "?y"), T("?z", "q", "?w")});
    add({"?x", "?z", "?y"}, {T("?x", "p", "?y"), T("?z", "q", "?y"), Ne("?x", "?z")});
    // nesting
    add({"?x", "?y", "?z", "?w"}, {T("?x", "p", "?y"), Opt({T("?y", "q", "?z"), Opt({T("?z", "q", "?w")})})}); // 70
    add({"?x", "?y", "?z", "?w"}, {T("?x", "p", "?y"), Opt({T("?y", "q", "?z")}), Opt({T("?z", "q", "?w")})});
    add({"?x", "?y", "?z"}, {T("?x", "p", "?y"), Opt({Uni({G({T("?y", "p", "?z")}), G({T("?y", "q", "?z")})})})});
    add({"?x", "?y"}, {Uni({G({T("?x", "p", "?y"), T("?y", "q", "?z")}), G({T("?x", "q", "?y")})})});
    add({"?x", "?y", "?z"}, {Uni({G({T("?x", "p", "?y"), Opt({T("?y", "q", "?z")})}), G({T("?x", "q", "?y")})})});
    add({"?x", "?y"}, {Uni({G({T("?x", "p", "?y"), Min({T("?y", "q", "?z")})}), G({T("?x", "q", "?y")})})});  // 75
    add({"?x", "?y"}, {T("?x", "p", "?y"), Min({Uni({G({T("?x", "q", "?z")}), G({T("?z", "q", "?y")})})})});
    add({"?x", "?y"}, {T("?x", "p", "?y"), Min({T("?x", "q", "?z")}), Min({T("?z", "q", "?y")})});
    add({"?x", "?y"}, {T("?x", "p", "?y"), Min({T("?x", "q", "?z"), Ne("?z", "a")})});
    add({"?x"}, {T("?x", "p", "?y"), Min({T("?z", "q", "?y")})});
    add({"?x"}, {T("?x", "p", "?y"), NotEx({T("?z", "q", "?y")})});                              // 80
    add({"?x", "?y"}, {T("?x", "p", "?y"), NotEx({T("?x", "q", "?z"), T("?z", "q", "?y")})});
    add({"?x", "?y"}, {T("?x", "p", "?y"), NotEx({T("?z", "q", "?w")})});
    add({"?x", "?y"}, {T("?x", "p", "?y"), NotEx({T("?x", "q", "?z")}), NotEx({T("?z", "q", "?y")})});
    add({"?x", "?y"}, {T("?x", "p", "?y"), NotEx({T("?x", "q", "nowhere")})});
    add({"?x", "?y"}, {T("?x", "p", "?y"), Min({T("?x", "q", "nowhere")})});                     // 85
    add({"?x", "?y"}, {T("?x", "p", "?y"), Min({T("?x", "q", "a")})});
    add({"?x", "?y"}, {T("?x", "p", "?y"), NotEx({T("?x", "q", "a")})});
    add({"?x", "?y", "?z"}, {T("?x", "p", "?y"), Opt({T("?y", "q", "?z")}), Min({T("?y", "p", "?x")})});
    add({"?x", "?y", "?z"}, {T("?x", "p", "?y"), Opt({T("?y", "q", "?z")}), NotEx({T("?y", "p", "?x")})});
    add({"?x", "?y", "?z"}, {T("?x", "p", "?y"), Opt({T("?y", "q", "?z")}), Eq("?z", "a")});      // 90
    add({"?x", "?y", "?z"}, {T("?x", "p", "?y"), Opt({T("?y", "q", "?z")}), Ne("?z", "a")});
    add({"?x", "?y", "?z"}, {T("?x", "p", "?y"), Opt({T("?y", "q", "?z")}), Or(NotBound("?z"), Eq("?z", "a"))});
    add({"?x", "?y", "?z"}, {T("?x", "p", "?y"), T("?y", "p", "?z"), Opt({T("?z", "q", "?w")}), Bound("?w")});
    add({"?x", "?y", "?w"}, {T("?x", "p", "?y"), T("?x", "q", "?z"), Opt({T("?z", "p", "?w")})});
    add({"?x", "?y", "?z"}, {T("?x", "p", "?y"), Opt({T("?z", "q", "a")})});                      // 95
    // in
    add({"?x", "?y", "?z"}, {T("?x", "p", "?y"), T("?y", "q", "?z"), NotEx({T("?x", "q", "?z")})});
    add({"?x", "?y"}, {T("?x", "p", "?y"), NotIn("?x", {"a", "b"})});
    add({"?x", "?y"}, {T("?x", "p", "?y"), NotIn("?y", {"a"})});
    add({"?x", "?y"}, {T("?x", "p", "?y"), Or(NotIn("?x", {"a", "b"}), Eq("?x", "?y"))});
    // values
    add({"?x", "?y"}, {T("?x", "p", "?y"), Val({"?y"}, {"a", "b"})});                            // 100
    add({"?x", "?y"}, {Uni({G({T("?x", "p", "?y"), Val({"?y"}, {"a"})}), G({T("?x", "q", "?y")})})});
    add({"?x", "?y", "?z"}, {T("?x", "p", "?y"), Opt({T("?y", "q", "?z"), Val({"?z"}, {"a"})})});
    add({"?x", "?y"}, {T("?x", "p", "?y"), Val({"?y"}, {"a", "b"}), Min({T("?y", "q", "?x")})});
    add({"?x", "?y", "?z"}, {Val({"?x", "?y"}, {"a", "b", "b", "a"}), Val({"?y", "?z"}, {"a", "b", "b", "b"})});
    add({"?x", "?y", "?z"}, {Val({"?x"}, {"a", "b"}), Uni({G({T("?x", "p", "?y")}), G({T("?x", "q", "?z")})})}); // 105
    // subselects
    add({"?x", "?y"}, {T("?x", "p", "?y"), Sub({"?y"}, {T("?y", "q", "?z"), T("?z", "q", "?w")})});
    add({"?x", "?y", "?z"}, {Sub({"?x", "?y"}, {T("?x", "p", "?y")}), Sub({"?y", "?z"}, {T("?y", "q", "?z")})});
    add({"?x"}, {Sub({"?x"}, {Sub({"?x", "?y"}, {T("?x", "p", "?y")}, true)})});
    add({"?x", "?y"}, {T("?x", "p", "?y"), Sub({"?x", "?y"}, {T("?x", "q", "?y")}, true)});
    add({"?x", "?z"}, {Sub({"?x"}, {T("?x", "p", "?y"), Opt({T("?y", "q", "?w")})}), T("?x", "q", "?z")}); // 110
    add({"?x"}, {SubL(1, 0, {"?x"}, {T("?x", "p", "?y")})});
    add({"?x", "?y"}, {SubL(2, 1, {"?x", "?y"}, {T("?x", "?r", "?y")})});
    add({"?x"}, {SubL(2, 1, {"?x"}, {T("?x", "?r", "?y")}, true)});
    add({"?x"}, {SubL(5, 2, {"?x"}, {T("?x", "?r", "?y")})});
    add({"?x"}, {SubL(2, 0, {"?x"}, {T("?x", "p", "?y"), T("?x", "q", "?z")})});                  // 115
    add({"?x", "?y"}, {T("?x", "p", "?y"), Sub({"?x"}, {Val({"?x"}, {"a", "b"})})});
    // repeated variables
    add({"?x", "?y"}, {T("?x", "p", "?x"), T("?x", "q", "?y")});
    add({"?y"}, {T("?x", "p", "?x"), T("?y", "q", "?z")});
    add({"?x"}, {T("?x", "?r", "?x")});
    add({"?x", "?y"}, {T("?x", "p", "?y"), Opt({T("?x", "q", "?x")})});                          // 120
    add({"?x", "?y", "?z", "?w"}, {T("?x", "p", "?y"), T("?y", "p", "?z"), T("?z", "q", "?w"), T("?w", "q", "?x")});
    add({"?x", "?y", "?r"}, {T("?x", "?r", "?y"), T("?y", "q", "?x")});
    add({"?r"}, {T("?x", "?r", "?y"), T("?y", "?r", "?z")}, true);
    add({"?x", "?y"}, {G({T("?x", "p", "?y"), Ne("?x", "a")}), G({T("?y", "q", "?x")})});
    add({"?x", "?y"}, {Ne("?x", "?y"), T("?x", "p", "?y")});                                      // 125
    add({"?x", "?z"}, {T("?x", "p", "?y"), G({Opt({T("?y", "q", "?z")})})});
    return t[k];
}
