wrt::replay_main!(h_diff);
