wrt::replay_main!(h_ops);
