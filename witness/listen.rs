//: App::listen
async fn before() {
    let mut app: App = App::new();
    app.get("/a", plain);
    app.post("/a", plain);
    app.use_service(obsidian::middleware::logger::Logger::new());
    app.use_router("/r", Router::new());
    app.scope("s", |r: &mut Router| r.get("/x", plain));
    app.listen(1).await;
    app.get("/b", plain); //~ get E0382
    app.post("/b", plain); //~ post E0382
    app.put("/b", plain); //~ put E0382
    app.patch("/b", plain); //~ patch E0382
    app.delete("/b", plain); //~ delete E0382
    app.use_service(obsidian::middleware::logger::Logger::new()); //~ service E0382
    app.use_service_to("/b", obsidian::middleware::logger::Logger::new()); //~ service_to E0382
    app.use_router("/q", Router::new()); //~ router E0382
    app.scope("t", |r: &mut Router| r.get("/x", plain)); //~ scope E0382
    app.use_static("dir"); //~ static E0382
    app.use_static_to("/v", "dir"); //~ static_to E0382
    app.listen(2).await; //~ again E0382
}
async fn pending() {
    let mut app: App = App::new();
    app.get("/a", plain);
    let serving = app.listen(1);
    app.get("/b", plain); //~ pending E0382,E0502,E0499,E0505
    serving.await;
}
#[derive(Clone)]
struct S;
async fn state() {
    let mut app: App<S> = App::new();
    app.set_app_state(S);
    let serving = app.listen(1);
    app.set_app_state(S); //~ state E0382,E0502,E0499,E0505
    serving.await;
}
fn spawned() {
    let mut app: App = App::default();
    app.get("/a", plain);
    let boxed: std::pin::Pin<Box<dyn std::future::Future<Output = ()> + 'static>> = Box::pin(app.listen(1));
    app.get("/b", plain); //~ spawned E0382,E0502,E0499,E0505,E0597
    drop(boxed);
}
