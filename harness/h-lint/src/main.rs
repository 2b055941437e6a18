wrt::replay_main!(h_lint);
