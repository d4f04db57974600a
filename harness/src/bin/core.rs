fn main() {
    let args = harness::runner::args();
    let mut campaigns = Vec::new();
    campaigns.extend(harness::trees::campaigns(&args.prop));
    campaigns.extend(harness::serapi::campaigns(&args.prop));
    campaigns.extend(harness::hooks::campaigns(&args.prop));
    campaigns.extend(harness::pull::campaigns(&args.prop));
    campaigns.extend(harness::text::campaigns(&args.prop));
    campaigns.extend(harness::extra::campaigns(&args.prop));
    harness::runner::finish(&args, &campaigns);
}
