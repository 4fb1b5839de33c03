// free segments of FreeSpace2D / FreeSpace3D over given boundaries
static void freeseg(Out& out, const char* cases) {
    Rng r(41);
    MultiBodyTree2D rob2(SuperEllipse({1, 1}, 1, {0, 0}, 0, 10));
    const SuperEllipse dummy({1, 1}, 1, {0, 0}, 0, 10);
    // one long-lived computator per number of bodies, besides a fresh one per scene
    std::map<std::pair<size_t, size_t>, std::pair<std::vector<SuperEllipse>*, std::vector<SuperEllipse>*>> own;
    std::map<std::pair<size_t, size_t>, FreeSpace2D*> old;
    auto run2 = [&](FreeSpace2D& fs, const std::vector<V2>& A, const std::vector<V2>& O,
                    const std::vector<double>& lim, const std::vector<double>& ty, double tol) {
        BoundaryInfo b;
        for (const auto& p : A) b.arena.push_back(mat(p));
        for (const auto& p : O) b.obstacle.push_back(mat(p));
        fs.setup(ty.size(), lim[0], lim[1]);
        fs.setCSpaceBoundary(b);
        fs.computeIntersectionInterval({ty});
        fs.computeFreeSegment(ty);
        const FreeSegment2D& s = fs.getFreeSegment();
        out(Rec("fs2").put("arena", A).put("obs", O).put("lim", lim).put("ty", ty).put("rty", s.ty)
                .put("xL", s.xL).put("xU", s.xU).put("xM", s.xM).put("tol", tol));
    };
    auto scene2 = [&](const std::vector<V2>& A, const std::vector<V2>& O, const std::vector<double>& lim,
                      const std::vector<double>& ty, double tol, bool fresh) {
        const auto key = std::make_pair(A.size(), O.size());
        if (fresh) {
            std::vector<SuperEllipse> a(A.size(), dummy), o(O.size(), dummy);
            FreeSpace2D fs(rob2, a, o);
            run2(fs, A, O, lim, ty, tol);
        } else {
            if (!old.count(key)) {
                own[key] = {new std::vector<SuperEllipse>(A.size(), dummy), new std::vector<SuperEllipse>(O.size(), dummy)};
                old[key] = new FreeSpace2D(rob2, *own[key].first, *own[key].second);
            }
            run2(*old[key], A, O, lim, ty, tol);
        }
    };
    const std::vector<std::vector<double>> tys = {{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}, {-1, 2.5, 3.25, 4, 4.5, 6},
                                                  {4, 5}, {3}};
    long k = 0;
    for (const auto& c : readCases(cases)) {
        std::vector<V2> A, O;
        for (const auto& p : c["arena"].a) A.push_back(p.mat());
        for (const auto& p : c["obs"].a) O.push_back(p.mat());
        scene2(A, O, c["lim"].nums(), tys[(k + envInt("VERIF_SEED", 1)) % 4 < 2 ? 0 : 1], 1e-9, k % 3 == 0);
        if (k % 5 == 0) scene2(A, O, c["lim"].nums(), tys[2 + k % 2], 1e-9, false);
        ++k;
    }
    const int n = thorough() ? 600 : 200;
    for (int t = 0; t < n; ++t) {
        std::vector<V2> A, O;
        const int na = r.p(0.6) ? 1 : r.i(2, 5), no = r.i(0, 6);
        for (int j = 0; j < na; ++j)
            A.push_back(cols(SuperEllipse({r.u(10, 25), r.u(8, 15)}, r.u(0.2, 1), {r.u(-4, 4), r.u(-4, 4)}, r.u(-1, 1), r.i(10, 60)).getOriginShape()));
        double px = r.u(-15, 15), py = r.u(-12, 12);
        for (int j = 0; j < no; ++j) {
            if (r.p(0.6)) px = r.u(-15, 15), py = r.u(-12, 12); else px += r.u(-3, 3);
            O.push_back(cols(SuperEllipse({r.u(0.5, 5), r.u(0.5, 5)}, r.u(0.2, 1.8), {px, py}, r.u(-3.2, 3.2), r.i(10, 60)).getOriginShape()));
        }
        for (int j = 0; j < t % 4; ++j) {      // walls with a narrow gap, or a narrow overlap, between them
            const double x = r.u(-8, 8), y0 = r.u(-10, 5), y1 = y0 + r.u(1, 8), w = (j == 2 ? -1 : 1) * std::pow(10.0, -r.i(1, 5)),
                         sl = r.u(-0.1, 0.1), wl = r.u(0.3, 4), wr = r.u(0.3, 4);
            O.push_back({{x - wl, y0}, {x, y0}, {x + sl, y1}, {x - wl, y1}, {x - wl, y0}});
            O.push_back({{x + w, y0}, {x + w + wr, y0}, {x + w + wr, y1}, {x + w + sl, y1}, {x + w, y0}});
        }
        std::vector<double> ty;
        const int nl = r.i(2, 14);
        for (int j = 0; j < nl; ++j) ty.push_back(-16 + 32.0 * j / (nl - 1));
        const double h = r.u(8, 26);
        scene2(A, O, {-h, h + r.u(-4, 4)}, ty, 1e-7, r.p(0.5));
    }
    // space
    const int n3 = thorough() ? 250 : 80;
    for (int t = 0; t < n3; ++t) {
        const int na = r.p(0.6) ? 1 : r.i(2, 4), no = r.i(1, 4), num = r.i(6, 12);
        std::vector<SuperQuadrics> A, O;
        const bool upright = t % 3 == 0;
        for (int j = 0; j < na; ++j)
            A.emplace_back(std::vector<double>{r.u(10, 20), r.u(10, 20), r.u(8, 16)}, std::vector<double>{r.u(0.2, 1), r.u(0.2, 1)},
                           std::vector<double>{r.u(-2, 2), r.u(-2, 2), r.u(-2, 2)},
                           upright ? Eigen::Quaterniond::Identity() : rquat(r), num);
        for (int j = 0; j < no; ++j) {
            O.push_back(quadric(r, num, 9, 0.5, 5));
            if (upright) O.back().setQuaternion(Eigen::Quaterniond::Identity());
        }
        MultiBodyTree3D rob(SuperQuadrics({1, 1, 1}, {1, 1}, {0, 0, 0}, Eigen::Quaterniond::Identity(), num));
        FreeSpace3D fs(rob, A, O);
        BoundaryInfo b;
        for (const auto& q : A) b.arena.push_back(q.getOriginShape());
        for (const auto& q : O) b.obstacle.push_back(q.getOriginShape());
        const double h = r.u(6, 20);
        std::vector<double> lim{-h, h + r.u(-3, 3)};
        fs.setCSpaceBoundary(b);
        fs.computeCSpaceBoundaryMesh(b);
        const auto& bm = fs.getCSpaceBoundaryMesh();
        auto meshes = [&](const std::vector<MeshMatrix>& v) {
            std::vector<J> o;
            for (const auto& m : v) o.push_back(Rec().put("v", cols(m.vertices)).put("f", ints(rows(m.faces))).json());
            return o;
        };
        std::vector<double> tx;
        for (int q = 0; q < (thorough() ? 5 : 3); ++q) {      // planes in turn, as a sweep does
            double x = q == 0 ? O[0].getPosition()[0] : r.u(-12, 12);
            tx.push_back(x);
            const int nl = r.i(3, 8);
            std::vector<double> ty{};
            for (int j = 0; j < nl; ++j) ty.push_back(-14 + 28.0 * j / (nl - 1));
            if (q == 0) ty[nl / 2] = O[0].getPosition()[1];  // through the poles of an upright obstacle
            std::sort(ty.begin(), ty.end());
            fs.setup(nl, lim[0], lim[1]);
            fs.computeIntersectionInterval({tx, ty});
            fs.computeFreeSegment(ty);
            const FreeSegment2D& s = fs.getFreeSegment();
            out(Rec("fs3").put("arena", meshes(bm.arena)).put("obs", meshes(bm.obstacle)).put("lim", lim).put("tx", x)
                    .put("ty", ty).put("rty", s.ty).put("xL", s.xL).put("xU", s.xU).put("xM", s.xM).put("tol", 0.05));
        }
    }
}
