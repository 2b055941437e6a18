wrt::replay_main!(h_ext);
