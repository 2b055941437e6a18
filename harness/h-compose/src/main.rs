wrt::replay_main!(h_compose);
