wrt::replay_main!(h_engine);
