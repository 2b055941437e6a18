wrt::replay_main!(h_config);
