From a5e122e71b9d51b63f8be1f28d7953bc58a22126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:06 +0000
Subject: [PATCH 01/46] fix: background training can be cancelled, replaced and
 destroyed at any time

Threads left in training_threads_ were destroyed while joinable, the end of
the training raced with new trainings, cancellation could wait forever, and
detached threads used destroyed models. The threads of a training are now
joined by one joining thread, which the model waits for, and classes are
only erased or updated once no class is training.
---
 src/core/model/xmmModel.hpp            | 416 +++++++++++++++----------
 src/core/model/xmmModelSingleClass.cpp |  14 +-
 src/core/model/xmmModelSingleClass.hpp |   5 +-
 src/models/gmm/xmmGmm.cpp              |   4 +-
 src/models/gmm/xmmGmm.hpp              |  17 +-
 src/models/hmm/xmmHierarchicalHmm.cpp  |  16 +-
 src/models/hmm/xmmHierarchicalHmm.hpp  |  24 +-
 src/models/hmm/xmmHmmSingleClass.cpp   |  11 +-
 8 files changed, 296 insertions(+), 211 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 815d900..835f21e 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -38,7 +38,10 @@
 #include "xmmModelResults.hpp"
 #include "xmmModelSingleClass.hpp"
 #include <atomic>
+#include <condition_variable>
+#include <mutex>
 #include <thread>
+#include <vector>
 
 namespace xmm {
 /**
@@ -57,10 +60,9 @@ class Model : public Writable {
      */
     Model(bool bimodal = false)
         : shared_parameters(std::make_shared<SharedParameters>()),
-          cancel_required_(false),
           is_training_(false),
           is_joining_(false),
-          models_still_training_(0) {
+          is_starting_(false) {
         shared_parameters->bimodal.set(bimodal);
         if (shared_parameters->bimodal.get()) {
             shared_parameters->dimension.set(2, true);
@@ -80,10 +82,9 @@ class Model : public Writable {
               std::make_shared<SharedParameters>(*src.shared_parameters)),
           configuration(src.configuration),
           training_events(src.training_events),
-          cancel_required_(false),
           is_training_(false),
           is_joining_(false),
-          models_still_training_(0) {
+          is_starting_(false) {
         if (src.is_training_)
             throw std::runtime_error(
                 "Cannot copy: source model is still training");
@@ -102,10 +103,9 @@ class Model : public Writable {
      */
     explicit Model(Json::Value const& root)
         : shared_parameters(std::make_shared<SharedParameters>()),
-          cancel_required_(false),
           is_training_(false),
           is_joining_(false),
-          models_still_training_(0) {
+          is_starting_(false) {
         shared_parameters->fromJson(root["shared_parameters"]);
         configuration.fromJson(root["configuration"]);
         models.clear();
@@ -133,15 +133,11 @@ class Model : public Writable {
             if (src.is_training_)
                 throw std::runtime_error(
                     "Cannot copy: source model is still training");
+            waitForTraining();
             shared_parameters =
                 std::make_shared<SharedParameters>(*src.shared_parameters);
             configuration = src.configuration;
             training_events = src.training_events;
-            is_joining_ = false;
-            is_training_ = false;
-            cancel_required_ = false;
-            models_still_training_ = 0;
-
             models.clear();
             models = src.models;
             for (auto& model : this->models) {
@@ -205,13 +201,18 @@ class Model : public Writable {
      @param label label of the class to remove
      */
     virtual void removeClass(std::string const& label) {
-        while (is_joining_) {
-        }
         cancelTraining(label);
-        auto it = models.find(label);
-        if (it == models.end())
-            throw std::out_of_range("Class " + label + " does not exist");
-        models.erase(it);
+        {
+            // While other classes are training, the end of the training takes
+            // care of updating the model.
+            std::lock_guard<std::mutex> lock(event_mutex_);
+            if (is_training_ && !is_joining_) {
+                eraseClass(label);
+                return;
+            }
+        }
+        waitForTraining();
+        eraseClass(label);
         reset();
     }
 
@@ -219,7 +220,7 @@ class Model : public Writable {
      @brief Remove all classes
      */
     virtual void clear() {
-        if (is_training_) cancelTraining();
+        cancelTraining();
         models.clear();
         reset();
     }
@@ -248,56 +249,18 @@ class Model : public Writable {
         cancelTraining();
         clear();
 
-        is_training_ = true;
-
-        // Fetch training set parameters
-        shared_parameters->dimension.set(trainingSet->dimension.get());
-        if (shared_parameters->bimodal.get()) {
-            shared_parameters->dimension_input.set(
-                trainingSet->dimension_input.get());
-        }
-        shared_parameters->column_names.set(trainingSet->column_names.get());
+        fetchParameters(trainingSet);
 
         // Update models
-        bool contLoop(true);
-        while (contLoop) {
-            contLoop = false;
-            for (auto it = models.begin(); it != models.end(); ++it) {
-                if (trainingSet->labels().count(it->first) == 0) {
-                    models.erase(it->first);
-                    contLoop = true;
-                    break;
-                }
-            }
-        }
         for (typename std::set<std::string>::iterator it =
                  trainingSet->labels().begin();
              it != trainingSet->labels().end(); ++it) {
             addModelForClass(*it);
         }
 
-        // Start class training
-        for (auto it = this->models.begin(); it != this->models.end(); ++it) {
-            it->second.is_training_ = true;
-            it->second.cancel_training_ = false;
-            models_still_training_++;
-            if ((configuration.multithreading ==
-                 MultithreadingMode::Parallel) ||
-                (configuration.multithreading ==
-                 MultithreadingMode::Background)) {
-                training_threads_[it->first] =
-                    std::thread(&SingleClassModel::train, &it->second,
-                                trainingSet->getPhrasesOfClass(it->first));
-            } else {
-                it->second.train(trainingSet->getPhrasesOfClass(it->first));
-            }
-        }
-        if (configuration.multithreading == MultithreadingMode::Parallel) {
-            joinTraining();
-        }
-        if (configuration.multithreading == MultithreadingMode::Sequential) {
-            is_training_ = false;
-        }
+        is_training_ = true;
+        startTraining(trainingSet, trainingSet->labels());
+        finishTraining();
     }
 
     /**
@@ -317,63 +280,57 @@ class Model : public Writable {
         // Cancel Training of the class
         cancelTraining(label);
 
-        // Check Consistency of the new Training Set
-        if (size() > 0) {
-            if ((shared_parameters->dimension.get() !=
-                 trainingSet->dimension.get()) ||
-                (shared_parameters->bimodal.get() &&
-                 (shared_parameters->dimension_input.get() !=
-                  trainingSet->dimension_input.get())))
-                throw std::runtime_error(
-                    "Dimensions of the new Training Set do not match existing "
-                    "models");
+        // In the background, the class joins the training of other classes if
+        // there is one. In the other modes, it waits for its end.
+        bool joinsTraining(false);
+        if (configuration.multithreading == MultithreadingMode::Background) {
+            std::lock_guard<std::mutex> lock(event_mutex_);
+            joinsTraining = is_training_ && !is_joining_;
+            is_starting_ = joinsTraining;
         }
+        if (!joinsTraining) waitForTraining();
 
-        is_training_ = true;
+        try {
+            // Check Consistency of the new Training Set
+            if (size() > 0) {
+                if ((shared_parameters->dimension.get() !=
+                     trainingSet->dimension.get()) ||
+                    (shared_parameters->bimodal.get() &&
+                     (shared_parameters->dimension_input.get() !=
+                      trainingSet->dimension_input.get())))
+                    throw std::runtime_error(
+                        "Dimensions of the new Training Set do not match "
+                        "existing models");
+            }
 
-        // Fetch training set parameters
-        shared_parameters->dimension.set(trainingSet->dimension.get());
-        if (shared_parameters->bimodal.get()) {
-            shared_parameters->dimension_input.set(
-                trainingSet->dimension_input.get());
+            fetchParameters(trainingSet);
+            addModelForClass(label);
+        } catch (...) {
+            if (joinsTraining) trainingStarted();
+            throw;
         }
-        shared_parameters->column_names.set(trainingSet->column_names.get());
-
-        addModelForClass(label);
 
-        // Start class training
-        models[label].is_training_ = true;
-        models[label].cancel_training_ = false;
-        models_still_training_++;
-        if (configuration.multithreading == MultithreadingMode::Sequential) {
-            models[label].train(trainingSet->getPhrasesOfClass(label));
-        } else {
-            training_threads_[label] =
-                std::thread(&SingleClassModel::train, &(this->models[label]),
-                            trainingSet->getPhrasesOfClass(label));
-        }
-        if (configuration.multithreading == MultithreadingMode::Parallel) {
-            joinTraining();
-        }
-        if (configuration.multithreading == MultithreadingMode::Sequential) {
-            is_training_ = false;
-        }
+        is_training_ = true;
+        startTraining(trainingSet, std::set<std::string>({label}));
+        if (joinsTraining)
+            trainingStarted();
+        else
+            finishTraining();
     }
 
     /**
      @brief Cancels the training of all models
      */
     void cancelTraining() {
-        if (is_training_) {
-            for (auto& it : this->models) {
-                cancel_required_ = true;
-                it.second.cancelTraining();
-                while (it.second.isTraining()) {
+        {
+            std::lock_guard<std::mutex> lock(event_mutex_);
+            if (is_training_ && !is_joining_) {
+                for (auto& it : this->models) {
+                    it.second.cancelTraining();
                 }
             }
-            joinTraining();
         }
-        cancel_required_ = false;
+        waitForTraining();
     }
 
     /**
@@ -381,16 +338,24 @@ class Model : public Writable {
      @param label label of the class to cancel
      */
     void cancelTraining(std::string const& label) {
-        if (is_training_ && (this->models.count(label) > 0)) {
-            cancel_required_ = true;
-            models[label].cancelTraining();
-            while (models[label].isTraining()) {
-            }
-            if (models_still_training_ == 0) {
-                joinTraining();
+        while (true) {
+            {
+                std::lock_guard<std::mutex> lock(event_mutex_);
+                if (!is_training_ || is_joining_) break;
+                auto it = this->models.find(label);
+                if (it == this->models.end()) return;
+                it->second.cancelTraining();
+                if (!it->second.isTraining()) {
+                    bool othersTraining(false);
+                    for (auto& model : this->models)
+                        if (model.second.isTraining()) othersTraining = true;
+                    if (othersTraining) return;
+                    break;
+                }
             }
+            std::this_thread::yield();
         }
-        cancel_required_ = false;
+        waitForTraining();
     }
 
     ///@}
@@ -404,9 +369,7 @@ class Model : public Writable {
     virtual void reset() {
         checkTraining();
         // checkConfigurationChanges();
-        for (auto it = this->models.begin(); it != this->models.end(); ++it) {
-            it->second.reset();
-        }
+        resetFiltering();
     }
 
     /**
@@ -430,6 +393,7 @@ class Model : public Writable {
      @return Json value containing the object's information
      */
     virtual Json::Value toJson() const {
+        checkTraining();
         Json::Value root;
         root["shared_parameters"] = shared_parameters->toJson();
         root["configuration"] = configuration.toJson();
@@ -481,68 +445,172 @@ class Model : public Writable {
 
   protected:
     /**
-     @brief Finishes the background training process by joining threads and
-     deleting the models which training failed
+     @brief Copies the dimensions and names of a training set
+     @param trainingSet Training Set
      */
-    virtual void joinTraining() {
-        if (!is_training_) return;
-        bool expectedState(false);
-        if (is_joining_.compare_exchange_weak(expectedState, true)) {
-            while (!training_threads_.empty()) {
-                training_threads_.begin()->second.join();
-                training_threads_.erase(training_threads_.begin());
+    void fetchParameters(TrainingSet* trainingSet) {
+        // other classes might be training: only write what changes
+        if (shared_parameters->dimension.get() != trainingSet->dimension.get())
+            shared_parameters->dimension.set(trainingSet->dimension.get());
+        if (shared_parameters->bimodal.get() &&
+            shared_parameters->dimension_input.get() !=
+                trainingSet->dimension_input.get()) {
+            shared_parameters->dimension_input.set(
+                trainingSet->dimension_input.get());
+        }
+        if (shared_parameters->column_names.get() !=
+            trainingSet->column_names.get())
+            shared_parameters->column_names.set(
+                trainingSet->column_names.get());
+    }
+
+    /**
+     @brief Starts the training of a set of classes
+     @details a class is trained in the calling thread if the model is trained
+     sequentially or if no thread can be created.
+     @param trainingSet Training Set
+     @param labels labels of the classes to train
+     */
+    void startTraining(TrainingSet* trainingSet,
+                       std::set<std::string> const& labels) {
+        for (auto& label : labels) {
+            SingleClassModel& model = models.find(label)->second;
+            model.cancel_training_ = false;
+            model.is_training_ = true;
+        }
+        for (auto& label : labels) {
+            SingleClassModel& model = models.find(label)->second;
+            TrainingSet* phrases = trainingSet->getPhrasesOfClass(label);
+            if ((configuration.multithreading ==
+                 MultithreadingMode::Parallel) ||
+                (configuration.multithreading ==
+                 MultithreadingMode::Background)) {
+                try {
+                    std::lock_guard<std::mutex> lock(event_mutex_);
+                    training_threads_.reserve(training_threads_.size() + 1);
+                    training_threads_.push_back(
+                        std::thread(&SingleClassModel::train, &model, phrases));
+                    continue;
+                } catch (std::exception const& e) {
+                }
             }
-            bool classesUntrained(true);
-            while (classesUntrained) {
-                classesUntrained = false;
-                for (auto it = this->models.begin(); it != this->models.end();
-                     it++) {
-                    if (it->second.training_status.status ==
-                            TrainingEvent::Status::Cancel ||
-                        it->second.training_status.status ==
-                            TrainingEvent::Status::Error) {
-                        models.erase(it);
-                        classesUntrained = true;
-                        break;
-                    }
+            model.train(phrases);
+        }
+    }
+
+    /**
+     @brief Signals that a class has been started in the current training
+     */
+    void trainingStarted() {
+        std::lock_guard<std::mutex> lock(event_mutex_);
+        is_starting_ = false;
+        training_started_.notify_all();
+    }
+
+    /**
+     @brief Finishes the training process, in background if required
+     */
+    void finishTraining() {
+        if (configuration.multithreading == MultithreadingMode::Background) {
+            try {
+                joining_thread_ =
+                    std::thread(&Model<SingleClassModel, ModelType>::joinTraining,
+                                this);
+                return;
+            } catch (std::exception const& e) {
+            }
+        }
+        joinTraining();
+    }
+
+    /**
+     @brief Waits until the background training process is finished
+     */
+    void waitForTraining() {
+        if (!joining_thread_.joinable()) return;
+        if (joining_thread_.get_id() == std::this_thread::get_id())
+            joining_thread_.detach();
+        else
+            joining_thread_.join();
+    }
+
+    /**
+     @brief Finishes the training process by joining threads and
+     deleting the models which training failed
+     */
+    void joinTraining() {
+        {
+            std::unique_lock<std::mutex> lock(event_mutex_);
+            while (is_starting_ || !training_threads_.empty()) {
+                if (training_threads_.empty()) {
+                    training_started_.wait(lock);
+                    continue;
                 }
+                std::thread thread(std::move(training_threads_.back()));
+                training_threads_.pop_back();
+                lock.unlock();
+                thread.join();
+                lock.lock();
             }
-            is_joining_ = false;
-            is_training_ = false;
-            reset();
-            TrainingEvent event(this, "", TrainingEvent::Status::Alldone);
-            training_events.notifyListeners(event);
-        } else {
-            while (is_joining_) {
+            is_joining_ = true;
+        }
+        bool classesUntrained(true);
+        while (classesUntrained) {
+            classesUntrained = false;
+            for (auto it = this->models.begin(); it != this->models.end();
+                 it++) {
+                if (it->second.training_status.status ==
+                        TrainingEvent::Status::Cancel ||
+                    it->second.training_status.status ==
+                        TrainingEvent::Status::Error) {
+                    models.erase(it);
+                    classesUntrained = true;
+                    break;
+                }
             }
         }
+        updateAfterTraining();
+        resetFiltering();
+        is_joining_ = false;
+        is_training_ = false;
+        TrainingEvent event(this, "", TrainingEvent::Status::Alldone);
+        training_events.notifyListeners(event);
+    }
+
+    /**
+     @brief Updates the multi-class parameters at the end of the training
+     */
+    virtual void updateAfterTraining() {}
+
+    /**
+     @brief Resets the filtering process, without checking if the model is
+     training
+     */
+    virtual void resetFiltering() {
+        for (auto it = this->models.begin(); it != this->models.end(); ++it) {
+            it->second.reset();
+        }
+    }
+
+    /**
+     @brief Removes a class from the set of models
+     @param label label of the class to remove
+     */
+    void eraseClass(std::string const& label) {
+        auto it = models.find(label);
+        if (it == models.end())
+            throw std::out_of_range("Class " + label + " does not exist");
+        models.erase(it);
     }
 
     /**
      @brief Monitors the training of each Model of the group.
      */
     void onTrainingEvent(TrainingEvent const& e) {
-        event_mutex_.lock();
+        std::lock_guard<std::mutex> lock(event_mutex_);
         TrainingEvent event(e);
         event.model = this;
         training_events.notifyListeners(event);
-        if (e.status != TrainingEvent::Status::Run) {
-            models_still_training_--;
-            ((SingleClassModel*)e.model)->is_training_ = false;
-            if (configuration.multithreading ==
-                    MultithreadingMode::Background &&
-                !is_joining_ &&       // avoid to call "joinTraining" if already
-                                      // called by the main thread
-                !cancel_required_ &&  // avoid to call "joinTraining" if cancel
-                                      // required by the main thread
-                models_still_training_ == 0) {
-                is_joining_ = false;
-                std::thread(&Model<SingleClassModel, ModelType>::joinTraining,
-                            this)
-                    .detach();
-            }
-        }
-        event_mutex_.unlock();
     }
 
     /**
@@ -551,8 +619,6 @@ class Model : public Writable {
      */
     inline void checkTraining() const {
         if (is_training_) throw std::runtime_error("The Model is training");
-        while (is_joining_) {
-        }
     }
 
     /**
@@ -598,33 +664,37 @@ class Model : public Writable {
     /**
      @brief Training Threads
      */
-    std::map<std::string, std::thread> training_threads_;
+    std::vector<std::thread> training_threads_;
 
     /**
-     @brief locks the Model while the models are training
-     Used in cancel method
+     @brief Thread finishing the training process in background
      */
-    std::atomic<bool> cancel_required_;
+    std::thread joining_thread_;
 
     /**
      @brief locks the Model while the models are training
-     Used in cancel method
      */
     std::atomic<bool> is_training_;
 
     /**
-     @brief specifies if a thread for joining the training process has been
-     launched.
+     @brief specifies if all classes are trained and the training process is
+     being finished.
      */
     std::atomic<bool> is_joining_;
 
     /**
-     @brief Number of models that are still training
+     @brief specifies if a class is about to join the current training process
+     */
+    bool is_starting_;
+
+    /**
+     @brief Notified when a class has joined the current training process
      */
-    unsigned int models_still_training_;
+    std::condition_variable training_started_;
 
     /**
-     @brief Mutex that prevents concurrent calls to onEvent()
+     @brief Mutex that prevents concurrent calls to onEvent(), and protects the
+     state of the training process
      */
     std::mutex event_mutex_;
 };
diff --git a/src/core/model/xmmModelSingleClass.cpp b/src/core/model/xmmModelSingleClass.cpp
index 28259e4..2f0023a 100644
--- a/src/core/model/xmmModelSingleClass.cpp
+++ b/src/core/model/xmmModelSingleClass.cpp
@@ -118,7 +118,11 @@ void xmm::SingleClassProbabilisticModel::train(TrainingSet* trainingSet) {
     training_status.status = TrainingEvent::Status::Run;
 
     if (trainingSet && !trainingSet->empty()) {
-        this->allocate();
+        try {
+            this->allocate();
+        } catch (std::exception& e) {
+            trainingError = true;
+        }
     } else {
         trainingError = true;
     }
@@ -158,10 +162,10 @@ void xmm::SingleClassProbabilisticModel::train(TrainingSet* trainingSet) {
             trainingError = true;
 
         if (trainingError) {
-            is_training_ = false;
-            training_mutex_.unlock();
             training_status.status = TrainingEvent::Status::Error;
             training_events.notifyListeners(training_status);
+            training_mutex_.unlock();
+            is_training_ = false;
             return;
         }
 
@@ -184,6 +188,7 @@ void xmm::SingleClassProbabilisticModel::train(TrainingSet* trainingSet) {
     this->emAlgorithmTerminate();
 
     training_mutex_.unlock();
+    is_training_ = false;
 }
 
 bool xmm::SingleClassProbabilisticModel::emAlgorithmHasConverged(
@@ -201,7 +206,6 @@ bool xmm::SingleClassProbabilisticModel::emAlgorithmHasConverged(
 void xmm::SingleClassProbabilisticModel::emAlgorithmTerminate() {
     training_status.status = TrainingEvent::Status::Done;
     training_events.notifyListeners(training_status);
-    this->is_training_ = false;
 }
 
 void xmm::SingleClassProbabilisticModel::cancelTraining() {
@@ -212,10 +216,10 @@ void xmm::SingleClassProbabilisticModel::cancelTraining() {
 
 bool xmm::SingleClassProbabilisticModel::cancelTrainingIfRequested() {
     if (!cancel_training_) return false;
-    training_mutex_.unlock();
     training_status.label = label;
     training_status.status = TrainingEvent::Status::Cancel;
     training_events.notifyListeners(training_status);
+    training_mutex_.unlock();
     is_training_ = false;
     return true;
 }
diff --git a/src/core/model/xmmModelSingleClass.hpp b/src/core/model/xmmModelSingleClass.hpp
index cad4a34..6bd9642 100644
--- a/src/core/model/xmmModelSingleClass.hpp
+++ b/src/core/model/xmmModelSingleClass.hpp
@@ -38,6 +38,7 @@
 #include "../common/xmmEvents.hpp"
 #include "../trainingset/xmmTrainingSet.hpp"
 #include "xmmModelSharedParameters.hpp"
+#include <atomic>
 #include <memory>
 #include <mutex>
 
@@ -360,12 +361,12 @@ class SingleClassProbabilisticModel : public Writable {
     /**
      @brief defines if the model is being trained.
      */
-    bool is_training_;
+    std::atomic<bool> is_training_;
 
     /**
      @brief defines if the model received a request to cancel training
      */
-    bool cancel_training_;
+    std::atomic<bool> cancel_training_;
 };
 }
 
diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index 67c69dc..07f7735 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -41,6 +41,8 @@ xmm::GMM::GMM(GMM const& src)
 
 xmm::GMM::GMM(Json::Value const& root) : Model<SingleClassGMM, GMM>(root) {}
 
+xmm::GMM::~GMM() { cancelTraining(); }
+
 xmm::GMM& xmm::GMM::operator=(GMM const& src) {
     if (this != &src) {
         Model<SingleClassGMM, GMM>::operator=(src);
@@ -83,7 +85,7 @@ void xmm::GMM::updateResults() {
 
 #pragma mark -
 #pragma mark Performance
-void xmm::GMM::reset() {
+void xmm::GMM::resetFiltering() {
     results.instant_likelihoods.resize(size());
     results.instant_normalized_likelihoods.resize(size());
     results.smoothed_likelihoods.resize(size());
diff --git a/src/models/gmm/xmmGmm.hpp b/src/models/gmm/xmmGmm.hpp
index 03d9247..410b2a9 100644
--- a/src/models/gmm/xmmGmm.hpp
+++ b/src/models/gmm/xmmGmm.hpp
@@ -70,13 +70,14 @@ class GMM : public Model<SingleClassGMM, GMM> {
      */
     GMM& operator=(GMM const& src);
 
-    /** @name Performance */
-    ///@{
-
     /**
-     @brief Resets the fitering process (recognition or regression)
+     @brief Destructor
+     @details waits for the end of the training, which uses the virtual methods
      */
-    virtual void reset();
+    virtual ~GMM();
+
+    /** @name Performance */
+    ///@{
 
     /**
      @brief filters a incoming observation (performs recognition or regression)
@@ -148,6 +149,12 @@ class GMM : public Model<SingleClassGMM, GMM> {
     Results<GMM> results;
 
   protected:
+    /**
+     @brief Resets the filtering process, without checking if the model is
+     training
+     */
+    virtual void resetFiltering();
+
     /**
      @brief Update the results (Likelihoods)
      */
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 4afd41a..e0ed259 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -75,6 +75,8 @@ xmm::HierarchicalHMM &xmm::HierarchicalHMM::operator=(
     return *this;
 }
 
+xmm::HierarchicalHMM::~HierarchicalHMM() { cancelTraining(); }
+
 void xmm::HierarchicalHMM::clear() {
     Model<SingleClassHMM, HMM>::clear();
     prior.clear();
@@ -102,8 +104,7 @@ void xmm::HierarchicalHMM::normalizeTransitions() {
     for (int i = 0; i < size(); i++) prior[i] /= sumPrior;
 }
 
-void xmm::HierarchicalHMM::joinTraining() {
-    Model<SingleClassHMM, HMM>::joinTraining();
+void xmm::HierarchicalHMM::updateAfterTraining() {
     updateTransitionParameters();
 }
 
@@ -138,11 +139,6 @@ void xmm::HierarchicalHMM::updateExitProbabilities() {
     }
 }
 
-void xmm::HierarchicalHMM::addModelForClass(std::string const &label) {
-    Model<SingleClassHMM, HMM>::addModelForClass(label);
-    updateTransitionParameters();
-}
-
 void xmm::HierarchicalHMM::forward_init(std::vector<float> const &observation) {
     checkTraining();
     double norm_const(0.0);
@@ -355,11 +351,11 @@ void xmm::HierarchicalHMM::likelihoodAlpha(
 
 void xmm::HierarchicalHMM::removeClass(std::string const &label) {
     Model<SingleClassHMM, HMM>::removeClass(label);
-    updateTransitionParameters();
+    if (!training()) updateTransitionParameters();
 }
 
-void xmm::HierarchicalHMM::reset() {
-    Model<SingleClassHMM, HMM>::reset();
+void xmm::HierarchicalHMM::resetFiltering() {
+    Model<SingleClassHMM, HMM>::resetFiltering();
     results.instant_likelihoods.resize(size());
     results.instant_normalized_likelihoods.resize(size());
     results.smoothed_likelihoods.resize(size());
diff --git a/src/models/hmm/xmmHierarchicalHmm.hpp b/src/models/hmm/xmmHierarchicalHmm.hpp
index 849850b..32889df 100644
--- a/src/models/hmm/xmmHierarchicalHmm.hpp
+++ b/src/models/hmm/xmmHierarchicalHmm.hpp
@@ -75,6 +75,12 @@ class HierarchicalHMM : public Model<SingleClassHMM, HMM> {
      */
     HierarchicalHMM& operator=(HierarchicalHMM const& src);
 
+    /**
+     @brief Destructor
+     @details waits for the end of the training, which uses the virtual methods
+     */
+    virtual ~HierarchicalHMM();
+
     /** @name Class Manipulation */
     ///@{
 
@@ -101,11 +107,6 @@ class HierarchicalHMM : public Model<SingleClassHMM, HMM> {
     /** @name Performance */
     ///@{
 
-    /**
-     @brief Resets the fitering process (recognition or regression)
-     */
-    virtual void reset();
-
     /**
      @brief filters a incoming observation (performs recognition or regression)
      @details the results of the inference process are stored in the results
@@ -213,11 +214,16 @@ class HierarchicalHMM : public Model<SingleClassHMM, HMM> {
 
   protected:
     /**
-     @brief Finishes the background training process by joining threads and
-     deleting the models which training failed
+     @brief Updates the multi-class parameters at the end of the training
      @details: updates transition parameters after joining
      */
-    virtual void joinTraining();
+    virtual void updateAfterTraining();
+
+    /**
+     @brief Resets the filtering process, without checking if the model is
+     training
+     */
+    virtual void resetFiltering();
 
     /**
      @brief update high-level parameters when a new primitive is learned
@@ -242,8 +248,6 @@ class HierarchicalHMM : public Model<SingleClassHMM, HMM> {
      */
     void updateExitProbabilities();
 
-    virtual void addModelForClass(std::string const& label);
-
     /**
      @brief Normalize segment level prior and transition matrices
      */
diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 401d2a5..21ebe93 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -121,7 +121,7 @@ void xmm::SingleClassHMM::allocate() {
     for (auto& state : states) {
         state.allocate();
     }
-    if (is_hierarchical_) updateExitProbabilities(NULL);
+    updateExitProbabilities(NULL);
 }
 
 void xmm::SingleClassHMM::initParametersToDefault(
@@ -1352,14 +1352,15 @@ void xmm::SingleClassHMM::fromJson(Json::Value const& root) {
 void xmm::SingleClassHMM::updateExitProbabilities(float* exitProbabilities) {
     unsigned int numStates = parameters.states.get();
 
-    if (!is_hierarchical_)
-        throw std::runtime_error(
-            "Model is Not hierarchical: method cannot be used");
     if (exitProbabilities == NULL) {
-        exit_probabilities_.resize(numStates, 0.0);
+        if (exit_probabilities_.size() != numStates)
+            exit_probabilities_.assign(numStates, 0.0);
         exit_probabilities_[numStates - 1] =
             DEFAULT_EXITPROBABILITY_LAST_STATE();
     } else {
+        if (!is_hierarchical_)
+            throw std::runtime_error(
+                "Model is Not hierarchical: method cannot be used");
         exit_probabilities_.resize(numStates, 0.0);
         for (int i = 0; i < numStates; i++) try {
                 exit_probabilities_[i] = exitProbabilities[i];
-- 
2.43.0


From 5beb48a19388e674a1db21cd85381636fecb2a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:33 +0000
Subject: [PATCH 02/46] fix: assigning an attribute keeps the target's own
 listener; attribute elements can be read whatever their declared size

---
 src/core/common/xmmAttribute.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/core/common/xmmAttribute.hpp b/src/core/common/xmmAttribute.hpp
index d1dcfc8..2598503 100644
--- a/src/core/common/xmmAttribute.hpp
+++ b/src/core/common/xmmAttribute.hpp
@@ -170,8 +170,7 @@ class Attribute : public AttributeBase {
      @return copy of the source Attribute object
      @warning the listener object is not copied from the source attribute
      */
-    template <typename U>
-    Attribute& operator=(Attribute<U> const& src) {
+    Attribute& operator=(Attribute const& src) {
         if (this != &src) {
             value_ = src.value_;
             limit_min_ = src.limit_min_;
@@ -317,8 +316,7 @@ class Attribute<std::vector<T>> : public AttributeBase {
      @return copy of the source Attribute object
      @warning the listener object is not copied from the source attribute
      */
-    template <typename U>
-    Attribute& operator=(Attribute<U> const& src) {
+    Attribute& operator=(Attribute const& src) {
         if (this != &src) {
             value_ = src.value_;
             limit_min_ = src.limit_min_;
@@ -363,7 +361,7 @@ class Attribute<std::vector<T>> : public AttributeBase {
      @return the attribute's current value at a given index
      */
     T at(unsigned int index) const {
-        if (index < size_) {
+        if (index < value_.size()) {
             return value_[index];
         } else {
             throw std::out_of_range("Index out of range");
@@ -505,8 +503,7 @@ class Attribute<std::vector<std::string>> : public AttributeBase {
      @return copy of the source Attribute object
      @warning the listener object is not copied from the source attribute
      */
-    template <typename U>
-    Attribute& operator=(Attribute<U> const& src) {
+    Attribute& operator=(Attribute const& src) {
         if (this != &src) {
             value_ = src.value_;
             limit_min_ = src.limit_min_;
@@ -551,7 +548,7 @@ class Attribute<std::vector<std::string>> : public AttributeBase {
      @return the attribute's current value at a given index
      */
     std::string at(unsigned int index) const {
-        if (index < size_) {
+        if (index < value_.size()) {
             return value_[index];
         } else {
             throw std::out_of_range("Index out of range");
-- 
2.43.0


From 71f10e28ed4d3913ade6903c10906204133078a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:33 +0000
Subject: [PATCH 03/46] fix: assigning HMM class parameters also assigns the
 hierarchical attribute

---
 src/models/hmm/xmmHmmParameters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/hmm/xmmHmmParameters.cpp b/src/models/hmm/xmmHmmParameters.cpp
index 2e4711a..e5bb122 100644
--- a/src/models/hmm/xmmHmmParameters.cpp
+++ b/src/models/hmm/xmmHmmParameters.cpp
@@ -114,6 +114,7 @@ xmm::ClassParameters<xmm::HMM>& xmm::ClassParameters<xmm::HMM>::operator=(
         covariance_mode = src.covariance_mode;
         transition_mode = src.transition_mode;
         regression_estimator = src.regression_estimator;
+        hierarchical = src.hierarchical;
         states.onAttributeChange(
             this, &xmm::ClassParameters<xmm::HMM>::onAttributeChange);
         gaussians.onAttributeChange(
-- 
2.43.0


From 82f6be3dc2a201c7a4f36def5f9e1f637efee9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:50 +0000
Subject: [PATCH 04/46] fix: phrase copies, assignments and resizing keep their
 data arrays consistent

---
 src/core/trainingset/xmmPhrase.cpp | 82 ++++++++++--------------------
 1 file changed, 28 insertions(+), 54 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 10a456e..8294bf9 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -66,8 +66,10 @@ xmm::Phrase::Phrase(Phrase const& src)
       input_length_(src.input_length_),
       output_length_(src.output_length_),
       max_length_(src.max_length_) {
+    data_ = new float*[bimodal_ ? 2 : 1];
+    data_[0] = NULL;
+    if (bimodal_) data_[1] = NULL;
     if (own_memory_) {
-        data_ = new float*[bimodal_ ? 2 : 1];
         if (max_length_ > 0) {
             unsigned int modality_dim =
                 bimodal_ ? dimension_input.get() : dimension.get();
@@ -151,59 +153,24 @@ xmm::Phrase::Phrase(Json::Value const& root)
 
 xmm::Phrase& xmm::Phrase::operator=(Phrase const& src) {
     if (this != &src) {
-        if (own_memory_) {
-            if (data_) {
-                if (bimodal_) try {
-                        delete[] data_[1];
-                    } catch (std::exception& e) {
-                    }
-                try {
-                    delete[] data_[0];
-                } catch (std::exception& e) {
-                }
-            }
-            try {
-                delete[] data_;
-            } catch (std::exception& e) {
-            }
-            data_ = NULL;
-        }
-        own_memory_ = src.own_memory_;
-        bimodal_ = src.bimodal_;
-        empty_ = src.empty_;
+        Phrase tmp(src);
+        bool label_changed = label.get() != src.label.get();
+        column_names = src.column_names;
+        label = src.label;
         dimension = src.dimension;
         dimension_input = src.dimension_input;
+        std::swap(own_memory_, tmp.own_memory_);
+        std::swap(bimodal_, tmp.bimodal_);
+        std::swap(data_, tmp.data_);
+        empty_ = src.empty_;
         max_length_ = src.max_length_;
         length_ = src.length_;
         input_length_ = src.input_length_;
         output_length_ = src.output_length_;
-        column_names = src.column_names;
-        label = src.label;
-
-        if (own_memory_) {
-            data_ = new float*[bimodal_ ? 2 : 1];
-            if (max_length_ > 0) {
-                unsigned int modality_dim =
-                    bimodal_ ? dimension_input.get() : dimension.get();
-                data_[0] = new float[max_length_ * modality_dim];
-                std::copy(src.data_[0],
-                          src.data_[0] + max_length_ * modality_dim, data_[0]);
-                if (bimodal_) {
-                    modality_dim = dimension.get() - dimension_input.get();
-                    data_[1] = new float[max_length_ * modality_dim];
-                    std::copy(src.data_[1],
-                              src.data_[1] + max_length_ * modality_dim,
-                              data_[1]);
-                }
-            }
-        } else {
-            data_[0] = src.data_[0];
-            if (bimodal_) data_[1] = src.data_[1];
+        if (label_changed) {
+            PhraseEvent event(this, PhraseEvent::Type::LabelChanged);
+            events.notifyListeners(event);
         }
-        dimension.onAttributeChange(this, &xmm::Phrase::onAttributeChange);
-        dimension_input.onAttributeChange(this,
-                                          &xmm::Phrase::onAttributeChange);
-        label.onAttributeChange(this, &xmm::Phrase::onAttributeChange);
     }
     return *this;
 }
@@ -428,7 +395,10 @@ void xmm::Phrase::clear() {
 void xmm::Phrase::clearInput() {
     if (!own_memory_)
         throw std::runtime_error("Cannot clear a shared data phrase");
-    if (!bimodal_) length_ = 0;
+    if (!bimodal_) {
+        length_ = 0;
+        empty_ = true;
+    }
     input_length_ = 0;
     trim();
 }
@@ -436,7 +406,11 @@ void xmm::Phrase::clearInput() {
 void xmm::Phrase::clearOutput() {
     if (!own_memory_)
         throw std::runtime_error("Cannot clear a shared data phrase");
-    if (!bimodal_) length_ = 0;
+    if (!bimodal_) {
+        length_ = 0;
+        input_length_ = 0;
+        empty_ = true;
+    }
     output_length_ = 0;
     trim();
 }
@@ -521,8 +495,8 @@ void xmm::Phrase::rescale(std::vector<float> offset, std::vector<float> gain) {
             }
             p = getPointer_output(t);
             for (int d = dimension_input.get(); d < dimension.get(); d++) {
-                p[d] -= offset[d];
-                p[d] *= gain[d];
+                p[d - dimension_input.get()] -= offset[d];
+                p[d - dimension_input.get()] *= gain[d];
             }
         } else {
             p = getPointer(t);
@@ -564,14 +538,14 @@ void xmm::Phrase::onAttributeChange(xmm::AttributeBase* attr_pointer) {
         max_length_ = 0;
         empty_ = true;
         if (own_memory_) {
-            delete data_[0];
+            delete[] data_[0];
         }
         data_[0] = nullptr;
         if (bimodal_) {
             if (own_memory_) {
-                data_[1] = nullptr;
+                delete[] data_[1];
             }
-            delete data_[1];
+            data_[1] = nullptr;
         }
         column_names.resize(dimension.get());
     }
-- 
2.43.0


From 6c2f069a9f6dbff803c2af123cc36711b6a2c469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:50 +0000
Subject: [PATCH 05/46] fix: training sets drop their listener with the phrase
 and keep their copies and class subsets consistent

---
 src/core/trainingset/xmmTrainingSet.cpp | 58 +++++++++++++++++--------
 src/core/trainingset/xmmTrainingSet.hpp |  7 +++
 2 files changed, 46 insertions(+), 19 deletions(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 0099ea4..458825b 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -55,8 +55,7 @@ xmm::TrainingSet::TrainingSet(TrainingSet const &src)
       column_names(src.column_names),
       own_memory_(src.own_memory_),
       bimodal_(src.bimodal_),
-      labels_(src.labels_),
-      phrases_(src.phrases_) {
+      labels_(src.labels_) {
     dimension.onAttributeChange(this, &xmm::TrainingSet::onAttributeChange);
     dimension_input.onAttributeChange(this,
                                       &xmm::TrainingSet::onAttributeChange);
@@ -105,21 +104,22 @@ xmm::TrainingSet::TrainingSet(Json::Value const &root)
 
 xmm::TrainingSet &xmm::TrainingSet::operator=(TrainingSet const &src) {
     if (this != &src) {
+        // src can be one of the sub-training sets that 'clear' destroys
+        TrainingSet tmp(src);
         clear();
-        own_memory_ = src.own_memory_;
-        bimodal_ = src.bimodal_;
-        dimension = src.dimension;
-        dimension_input = src.dimension_input;
-        column_names = src.column_names;
-        labels_ = src.labels_;
+        own_memory_ = tmp.own_memory_;
+        bimodal_ = tmp.bimodal_;
+        dimension = tmp.dimension;
+        dimension_input = tmp.dimension_input;
+        column_names = tmp.column_names;
+        labels_ = tmp.labels_;
         dimension.onAttributeChange(this, &xmm::TrainingSet::onAttributeChange);
         dimension_input.onAttributeChange(this,
                                           &xmm::TrainingSet::onAttributeChange);
         column_names.onAttributeChange(this,
                                        &xmm::TrainingSet::onAttributeChange);
-        for (auto phrase : src.phrases_) {
-            phrases_.insert(std::pair<int, std::shared_ptr<xmm::Phrase>>(
-                phrase.first, std::make_shared<Phrase>(*phrase.second)));
+        for (auto phrase : tmp.phrases_) {
+            phrases_.insert(phrase);
             phrases_[phrase.first]->events.addListener(
                 this, &xmm::TrainingSet::onPhraseEvent);
         }
@@ -128,7 +128,7 @@ xmm::TrainingSet &xmm::TrainingSet::operator=(TrainingSet const &src) {
     return *this;
 }
 
-xmm::TrainingSet::~TrainingSet() {}
+xmm::TrainingSet::~TrainingSet() { clear(); }
 
 bool xmm::TrainingSet::ownMemory() const { return own_memory_; }
 
@@ -148,7 +148,7 @@ void xmm::TrainingSet::onAttributeChange(xmm::AttributeBase *attr_pointer) {
         for (std::map<std::string, TrainingSet>::iterator it =
                  sub_training_sets_.begin();
              it != sub_training_sets_.end(); ++it)
-            it->second.dimension.set(dimension.get(), true);
+            it->second.dimension.set(dimension.get());
 
         column_names.resize(dimension.get());
         dimension_input.setLimitMax(dimension.get() - 1);
@@ -160,7 +160,7 @@ void xmm::TrainingSet::onAttributeChange(xmm::AttributeBase *attr_pointer) {
         for (std::map<std::string, TrainingSet>::iterator it =
                  sub_training_sets_.begin();
              it != sub_training_sets_.end(); ++it)
-            it->second.dimension_input.set(dimension_input.get(), true);
+            it->second.dimension_input.set(dimension_input.get());
     }
     if (attr_pointer == &column_names) {
         for (auto &phrase : phrases_) {
@@ -170,7 +170,7 @@ void xmm::TrainingSet::onAttributeChange(xmm::AttributeBase *attr_pointer) {
         for (std::map<std::string, TrainingSet>::iterator it =
                  sub_training_sets_.begin();
              it != sub_training_sets_.end(); ++it)
-            it->second.column_names.set(column_names.get(), true);
+            it->second.column_names.set(column_names.get());
     }
     attr_pointer->changed = false;
 }
@@ -220,6 +220,7 @@ std::shared_ptr<xmm::Phrase> xmm::TrainingSet::getPhrase(int n) const {
 }
 
 void xmm::TrainingSet::addPhrase(int phraseIndex, std::string label) {
+    releasePhrase(phraseIndex);
     phrases_[phraseIndex] = std::make_shared<Phrase>(
         own_memory_ ? MemoryMode::OwnMemory : MemoryMode::SharedMemory,
         bimodal_ ? Multimodality::Bimodal : Multimodality::Unimodal);
@@ -233,8 +234,9 @@ void xmm::TrainingSet::addPhrase(int phraseIndex, std::string label) {
 }
 
 void xmm::TrainingSet::addPhrase(int phraseIndex, Phrase const &phrase) {
-    phrases_[phraseIndex] = std::make_shared<Phrase>(phrase);
-    phrases_[phraseIndex]->events.removeListeners();
+    std::shared_ptr<Phrase> new_phrase = std::make_shared<Phrase>(phrase);
+    releasePhrase(phraseIndex);
+    phrases_[phraseIndex] = new_phrase;
     phrases_[phraseIndex]->events.addListener(this,
                                               &xmm::TrainingSet::onPhraseEvent);
     update();
@@ -242,6 +244,7 @@ void xmm::TrainingSet::addPhrase(int phraseIndex, Phrase const &phrase) {
 
 void xmm::TrainingSet::addPhrase(int phraseIndex,
                                  std::shared_ptr<Phrase> phrase) {
+    releasePhrase(phraseIndex);
     phrases_[phraseIndex] = phrase;
     phrases_[phraseIndex]->events.addListener(this,
                                               &xmm::TrainingSet::onPhraseEvent);
@@ -249,11 +252,24 @@ void xmm::TrainingSet::addPhrase(int phraseIndex,
 }
 
 void xmm::TrainingSet::removePhrase(int phraseIndex) {
-    phrases_.erase(phraseIndex);
+    releasePhrase(phraseIndex);
     update();
 }
 
-void xmm::TrainingSet::removePhrasesOfClass(std::string const &label) {
+void xmm::TrainingSet::releasePhrase(int phraseIndex) {
+    auto it = phrases_.find(phraseIndex);
+    if (it == phrases_.end()) return;
+    std::shared_ptr<Phrase> phrase = it->second;
+    phrases_.erase(it);
+    for (auto &other : phrases_) {
+        if (other.second == phrase) return;
+    }
+    phrase->events.removeListener(this, &xmm::TrainingSet::onPhraseEvent);
+}
+
+void xmm::TrainingSet::removePhrasesOfClass(std::string const &class_label) {
+    // the argument can be an element of 'labels', which 'update' rebuilds
+    std::string const label(class_label);
     bool contLoop(true);
     while (contLoop) {
         contLoop = false;
@@ -270,6 +286,10 @@ void xmm::TrainingSet::removePhrasesOfClass(std::string const &label) {
 
 void xmm::TrainingSet::clear() {
     sub_training_sets_.clear();
+    for (auto &phrase : phrases_) {
+        phrase.second->events.removeListener(this,
+                                             &xmm::TrainingSet::onPhraseEvent);
+    }
     phrases_.clear();
     labels_.clear();
 }
diff --git a/src/core/trainingset/xmmTrainingSet.hpp b/src/core/trainingset/xmmTrainingSet.hpp
index 6fa03c6..f0c2df8 100644
--- a/src/core/trainingset/xmmTrainingSet.hpp
+++ b/src/core/trainingset/xmmTrainingSet.hpp
@@ -325,6 +325,13 @@ class TrainingSet : public Writable {
      */
     virtual void update();
 
+    /**
+     @brief drop the reference to the phrase at the given index, and stop
+     listening to its events unless it is also stored at another index.
+     @param phraseIndex index of the phrase
+     */
+    void releasePhrase(int phraseIndex);
+
     /**
      @brief defines if the phrase has its own memory
      */
-- 
2.43.0


From 01a24e56cd42bb1a547e493e05fb53214c5758d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:27 +0000
Subject: [PATCH 06/46] fix: JSON exceptions own their message

---
 src/core/common/xmmJson.hpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/core/common/xmmJson.hpp b/src/core/common/xmmJson.hpp
index 8a27eee..f7d349d 100644
--- a/src/core/common/xmmJson.hpp
+++ b/src/core/common/xmmJson.hpp
@@ -154,6 +154,7 @@ class JsonException : public std::exception {
     JsonException(JsonErrorType errorType, std::string nodename = "")
         : errorType_(errorType) {
         nodename_.push_back(nodename);
+        updateMessage();
     }
 
     /**
@@ -164,6 +165,7 @@ class JsonException : public std::exception {
     explicit JsonException(JsonException const& src, std::string nodename)
         : errorType_(src.errorType_), nodename_(src.nodename_) {
         nodename_.push_back(nodename);
+        updateMessage();
     }
 
     /**
@@ -171,7 +173,9 @@ class JsonException : public std::exception {
      @param src Source exception
      */
     JsonException(JsonException const& src)
-        : errorType_(src.errorType_), nodename_(src.nodename_) {}
+        : errorType_(src.errorType_),
+          nodename_(src.nodename_),
+          message_(src.message_) {}
 
     /**
      @brief Assigment
@@ -181,6 +185,7 @@ class JsonException : public std::exception {
         if (this != &src) {
             errorType_ = src.errorType_;
             nodename_ = src.nodename_;
+            message_ = src.message_;
         }
         return *this;
     }
@@ -189,8 +194,15 @@ class JsonException : public std::exception {
      @brief Get exception message
      @return exception message
      */
-    virtual const char* what() const throw() {
-        std::string message;
+    virtual const char* what() const throw() { return message_.c_str(); }
+
+  private:
+    /**
+     @brief Builds the exception message, that must live as long as the
+     exception
+     */
+    void updateMessage() {
+        std::string& message = message_;
         switch (errorType_) {
             case JsonErrorType::JsonMissingNode:
                 message = "Json Structure Error: Missing Node";
@@ -211,10 +223,8 @@ class JsonException : public std::exception {
         message += " (root";
         for (auto& node : nodename_) message += " > " + node;
         message += ")";
-        return message.c_str();
     }
 
-  private:
     /**
      @brief Type of Json Parsing Error
      */
@@ -224,6 +234,11 @@ class JsonException : public std::exception {
      @brief Name of the Json Node presenting an error
      */
     std::vector<std::string> nodename_;
+
+    /**
+     @brief Exception message
+     */
+    std::string message_;
 };
 
 /**
-- 
2.43.0


From aaaddab73c4490e7d02f5077402d22c340d692ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:41 +0000
Subject: [PATCH 07/46] fix: saving to a file reports write errors

---
 src/core/common/xmmJson.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/common/xmmJson.hpp b/src/core/common/xmmJson.hpp
index f7d349d..670fcb3 100644
--- a/src/core/common/xmmJson.hpp
+++ b/src/core/common/xmmJson.hpp
@@ -83,6 +83,9 @@ class Writable {
         outStream.open(fileName);
         outStream << this->toJson();
         outStream.close();
+        if (!outStream.good()) {
+            throw std::runtime_error("Cannot write Json File");
+        }
     }
 
     /**
@@ -102,7 +105,7 @@ class Writable {
         //                              std::istreambuf_iterator<char>());
         Json::Value root;
         Json::Reader reader;
-        if (reader.parse(inStream, root)) {
+        if (reader.parse(inStream, root) && !inStream.bad()) {
             this->fromJson(root);
         } else {
             throw std::runtime_error("Cannot Parse Json File");
-- 
2.43.0


From d676734ea3db5a89519af5dd1fa25650132b6b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:45 +0000
Subject: [PATCH 08/46] fix: objects can be loaded from several threads

---
 dependencies/jsoncpp/src/json_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dependencies/jsoncpp/src/json_reader.cpp b/dependencies/jsoncpp/src/json_reader.cpp
index 0453574..109bf10 100755
--- a/dependencies/jsoncpp/src/json_reader.cpp
+++ b/dependencies/jsoncpp/src/json_reader.cpp
@@ -43,7 +43,7 @@
 #endif
 
 static int const stackLimit_g = 1000;
-static int       stackDepth_g = 0;  // see readValue()
+static thread_local int stackDepth_g = 0;  // see readValue()
 
 namespace Json {
 
-- 
2.43.0


From fe9c83766797479d92ecdf7ddf37fa55517d04c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 09/46] fix: regularization and convergence parameters are
 restored exactly

---
 src/core/model/xmmModelSharedParameters.cpp | 2 +-
 src/models/gmm/xmmGmmParameters.cpp         | 4 ++--
 src/models/hmm/xmmHmmParameters.cpp         | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 21d74a8..1abcfa9 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -95,7 +95,7 @@ xmm::SharedParameters::SharedParameters(Json::Value const& root)
     em_algorithm_max_iterations.set(
         root.get("em_algorithm_max_iterations", 0).asInt());
     em_algorithm_percent_chg.set(
-        root.get("em_algorithm_percent_chg", 0.01).asFloat());
+        root.get("em_algorithm_percent_chg", 0.01).asDouble());
     likelihood_window.set(root.get("likelihood_window", 1).asInt());
     std::vector<std::string> tmpColNames(dimension.get());
     for (int i = 0; i < tmpColNames.size(); i++)
diff --git a/src/models/gmm/xmmGmmParameters.cpp b/src/models/gmm/xmmGmmParameters.cpp
index 3e4fdb7..adf4c97 100644
--- a/src/models/gmm/xmmGmmParameters.cpp
+++ b/src/models/gmm/xmmGmmParameters.cpp
@@ -80,8 +80,8 @@ xmm::ClassParameters<xmm::GMM>::ClassParameters(Json::Value const& root)
         this, &xmm::ClassParameters<xmm::GMM>::onAttributeChange);
 
     gaussians.set(root["gaussians"].asInt());
-    relative_regularization.set(root["relative_regularization"].asFloat());
-    absolute_regularization.set(root["absolute_regularization"].asFloat());
+    relative_regularization.set(root["relative_regularization"].asDouble());
+    absolute_regularization.set(root["absolute_regularization"].asDouble());
     covariance_mode.set(static_cast<GaussianDistribution::CovarianceMode>(
         root["covariance_mode"].asInt()));
 }
diff --git a/src/models/hmm/xmmHmmParameters.cpp b/src/models/hmm/xmmHmmParameters.cpp
index e5bb122..cbc058e 100644
--- a/src/models/hmm/xmmHmmParameters.cpp
+++ b/src/models/hmm/xmmHmmParameters.cpp
@@ -92,8 +92,8 @@ xmm::ClassParameters<xmm::HMM>::ClassParameters(Json::Value const& root)
     : ClassParameters() {
     states.set(root["states"].asInt());
     gaussians.set(root["gaussians"].asInt());
-    relative_regularization.set(root["relative_regularization"].asFloat());
-    absolute_regularization.set(root["absolute_regularization"].asFloat());
+    relative_regularization.set(root["relative_regularization"].asDouble());
+    absolute_regularization.set(root["absolute_regularization"].asDouble());
     covariance_mode.set(static_cast<GaussianDistribution::CovarianceMode>(
         root["covariance_mode"].asInt()));
     transition_mode.set(
-- 
2.43.0


From 5eba63edf63d83445c5c8f17d0fb94dfe18670a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:22 +0000
Subject: [PATCH 10/46] fix: damaged phrases and training sets are refused
 before any data is allocated

---
 src/core/common/xmmJson.hpp             | 34 ++++++++++++++++++++
 src/core/trainingset/xmmPhrase.cpp      | 41 ++++++++++++-------------
 src/core/trainingset/xmmTrainingSet.cpp | 15 +++++++--
 3 files changed, 65 insertions(+), 25 deletions(-)

diff --git a/src/core/common/xmmJson.hpp b/src/core/common/xmmJson.hpp
index 670fcb3..270c3e1 100644
--- a/src/core/common/xmmJson.hpp
+++ b/src/core/common/xmmJson.hpp
@@ -289,6 +289,40 @@ void json2array(Json::Value const& root, bool* a, unsigned int n);
 template <>
 void json2array(Json::Value const& root, std::string* a, unsigned int n);
 
+/**
+ @ingroup Common
+ @brief Checks that a Json Value is an array of a given size
+ @details the size is the product of both arguments
+ @param root Json Value
+ @param n number of elements
+ @param m number of values per element
+ @throws JsonException if the Json Value is not an array of the given size
+ */
+inline void checkJsonArray(Json::Value const& root, unsigned int n,
+                           unsigned int m = 1) {
+    if (root.isNull() && (n == 0 || m == 0)) return;
+    if (!root.isArray())
+        throw JsonException(JsonException::JsonErrorType::JsonTypeError);
+    if (root.size() !=
+        static_cast<unsigned long long>(n) * static_cast<unsigned long long>(m))
+        throw JsonException(JsonException::JsonErrorType::JsonValueError);
+}
+
+/**
+ @ingroup Common
+ @brief Reads the dimension of data from a Json Value
+ @param root Json Value
+ @throws JsonException if the Json Value is not an admissible dimension
+ @return dimension
+ */
+inline unsigned int json2dimension(Json::Value const& root) {
+    unsigned int const maximumDimension = 65536;
+    int dimension = root.asInt();
+    if (dimension < 0 || dimension > maximumDimension)
+        throw JsonException(JsonException::JsonErrorType::JsonValueError);
+    return static_cast<unsigned int>(dimension);
+}
+
 /**
  @ingroup Common
  @brief Writes a vector to a Json Value
diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 8294bf9..9b3d99d 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -93,33 +93,21 @@ xmm::Phrase::Phrase(Phrase const& src)
 }
 
 xmm::Phrase::Phrase(Json::Value const& root)
-    : own_memory_(true),
-      bimodal_(false),
-      empty_(true),
-      length_(0),
-      input_length_(0),
-      output_length_(0),
-      max_length_(0) {
-    if (!own_memory_)
-        throw std::runtime_error("Cannot read Phrase with Shared memory");
-
-    dimension.onAttributeChange(this, &xmm::Phrase::onAttributeChange);
-    dimension_input.onAttributeChange(this, &xmm::Phrase::onAttributeChange);
-    label.onAttributeChange(this, &xmm::Phrase::onAttributeChange);
-
-    bimodal_ = root.get("bimodal", false).asBool();
-    dimension.setLimitMin((bimodal_) ? 2 : 1);
-    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asInt(), true);
+    : Phrase(MemoryMode::OwnMemory, root.get("bimodal", false).asBool()
+                                        ? Multimodality::Bimodal
+                                        : Multimodality::Unimodal) {
+    dimension.set(json2dimension(root.get("dimension", bimodal_ ? 2 : 1)),
+                  true);
     if (bimodal_) {
         dimension_input.setLimits(1, dimension.get() - 1);
     } else {
         dimension_input.setLimits(0, 0);
     }
-    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asInt(), true);
-    data_ = new float*[bimodal_ ? 2 : 1];
-    data_[0] = NULL;
-    if (bimodal_) data_[1] = NULL;
+    dimension_input.set(
+        json2dimension(root.get("dimension_input", bimodal_ ? 1 : 0)), true);
 
+    if (root["column_names"].size() > dimension.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError);
     column_names.resize(dimension.get(), "");
     for (int i = 0; i < root["column_names"].size(); i++) {
         column_names[i] = root["column_names"].get(i, "").asString();
@@ -127,7 +115,16 @@ xmm::Phrase::Phrase(Json::Value const& root)
 
     label.set(root["label"].asString());
 
-    length_ = static_cast<unsigned int>(root.get("length", 0).asInt());
+    unsigned int length = root.get("length", 0).asUInt();
+    if (bimodal_) {
+        checkJsonArray(root["data_input"], length, dimension_input.get());
+        checkJsonArray(root["data_output"], length,
+                       dimension.get() - dimension_input.get());
+    } else {
+        checkJsonArray(root["data"], length, dimension.get());
+    }
+
+    length_ = length;
     max_length_ = length_;
     input_length_ = length_;
     output_length_ = length_;
diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 458825b..f291718 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -83,8 +83,11 @@ xmm::TrainingSet::TrainingSet(Json::Value const &root)
 
     dimension.setLimitMin((bimodal_) ? 2 : 1);
     dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 2 : 0);
-    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asInt());
-    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asInt());
+    dimension.set(json2dimension(root.get("dimension", bimodal_ ? 2 : 1)));
+    dimension_input.set(
+        json2dimension(root.get("dimension_input", bimodal_ ? 1 : 0)));
+    if (root["column_names"].size() > dimension.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError);
     std::vector<std::string> tmpColNames(dimension.get());
     for (int i = 0; i < root["column_names"].size(); i++) {
         tmpColNames[i] = root["column_names"].get(i, "").asString();
@@ -94,8 +97,14 @@ xmm::TrainingSet::TrainingSet(Json::Value const &root)
     // Get Phrases
     phrases_.clear();
     for (auto p : root["phrases"]) {
+        std::shared_ptr<Phrase> phrase = std::make_shared<Phrase>(p);
+        if (phrase->bimodal() != bimodal_ ||
+            phrase->dimension.get() != dimension.get() ||
+            phrase->dimension_input.get() != dimension_input.get())
+            throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                                "phrases");
         phrases_.insert(std::pair<int, std::shared_ptr<xmm::Phrase>>(
-            p["index"].asInt(), std::make_shared<Phrase>(p)));
+            p["index"].asInt(), phrase));
         phrases_[p["index"].asInt()]->events.addListener(
             this, &xmm::TrainingSet::onPhraseEvent);
     }
-- 
2.43.0


From cb32369c0b7e59e1992d1c5f5821ec8037213258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:24 +0000
Subject: [PATCH 11/46] fix: Gaussian distributions are restored in both
 covariance modes and refused when damaged

---
 .../distributions/xmmGaussianDistribution.cpp | 34 +++++++++++++++----
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index ae2b290..c0144dc 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -86,26 +86,46 @@ xmm::GaussianDistribution::GaussianDistribution(GaussianDistribution const& src)
 xmm::GaussianDistribution::GaussianDistribution(Json::Value const& root)
     : covariance_determinant_(0.), covariance_determinant_input_(0.) {
     bimodal_ = root.get("bimodal", false).asBool();
-    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asInt());
-    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asInt());
+    dimension.setLimitMin(bimodal_ ? 2 : 1);
+    dimension.set(json2dimension(root.get("dimension", bimodal_ ? 2 : 1)));
+    dimension_input.setLimits(0, bimodal_ ? dimension.get() - 1 : 0);
+    dimension_input.set(
+        json2dimension(root.get("dimension_input", bimodal_ ? 1 : 0)));
     covariance_mode.set(
         static_cast<CovarianceMode>(root["covariance_mode"].asInt()));
 
+    bool full = covariance_mode.get() == CovarianceMode::Full;
+    unsigned int dimension_output = dimension.get() - dimension_input.get();
+    checkJsonArray(root["mean"], dimension.get());
+    checkJsonArray(root["covariance"], dimension.get(),
+                   full ? dimension.get() : 1);
+    checkJsonArray(root["inverse_covariance"], dimension.get(),
+                   full ? dimension.get() : 1);
+    if (bimodal_)
+        checkJsonArray(root["inverse_covariance_input"], dimension_input.get(),
+                       full ? dimension_input.get() : 1);
+    if (root["output_covariance"].size() > 0)
+        checkJsonArray(root["output_covariance"],
+                       bimodal_ ? dimension_output : 0,
+                       full ? dimension_output : 1);
+
     allocate();
 
-    json2vector(root["mean"], mean, dimension.get());
-    json2vector(root["covariance"], covariance,
-                dimension.get() * dimension.get());
+    json2vector(root["mean"], mean, mean.size());
+    json2vector(root["covariance"], covariance, covariance.size());
 
     // updateInverseCovariance();
     // read from json instead of calling updateInverseCovariance() :
     json2vector(root["inverse_covariance"], inverse_covariance_,
-                dimension.get() * dimension.get());
+                inverse_covariance_.size());
     covariance_determinant_ = root.get("covariance_determinant", 0.).asDouble();
     json2vector(root["inverse_covariance_input"], inverse_covariance_input_,
-                dimension_input.get() * dimension_input.get());
+                inverse_covariance_input_.size());
     covariance_determinant_input_ =
         root.get("covariance_determinant_input", 0.).asDouble();
+    output_covariance.resize(root["output_covariance"].size());
+    json2vector(root["output_covariance"], output_covariance,
+                output_covariance.size());
 
     dimension.onAttributeChange(this,
                                 &xmm::GaussianDistribution::onAttributeChange);
-- 
2.43.0


From 41600cc823551ea3f8235580298b7192f61d8c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:55 +0000
Subject: [PATCH 12/46] fix: setting the covariance mode of a Gaussian
 distribution to its current value keeps its covariance

---
 src/core/distributions/xmmGaussianDistribution.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index c0144dc..e03c4fb 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -162,7 +162,8 @@ void xmm::GaussianDistribution::onAttributeChange(AttributeBase* attr_pointer) {
         allocate();
     }
     if (attr_pointer == &covariance_mode) {
-        if (covariance_mode.get() == CovarianceMode::Diagonal) {
+        if (covariance_mode.get() == CovarianceMode::Diagonal &&
+            covariance.size() != dimension.get()) {
             std::vector<double> new_covariance(dimension.get());
             for (unsigned int d = 0; d < dimension.get(); ++d) {
                 new_covariance[d] = covariance[d * dimension.get() + d];
@@ -171,7 +172,8 @@ void xmm::GaussianDistribution::onAttributeChange(AttributeBase* attr_pointer) {
             inverse_covariance_.resize(dimension.get());
             if (bimodal_)
                 inverse_covariance_input_.resize(dimension_input.get());
-        } else if (covariance_mode.get() == CovarianceMode::Full) {
+        } else if (covariance_mode.get() == CovarianceMode::Full &&
+                   covariance.size() != dimension.get() * dimension.get()) {
             std::vector<double> new_covariance(
                 dimension.get() * dimension.get(), 0.0);
             for (unsigned int d = 0; d < dimension.get(); ++d) {
-- 
2.43.0


From 0b293aaf1abd9c37a3fbb6777cbc8f55058cb3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:10 +0000
Subject: [PATCH 13/46] fix: damaged model files are refused before any data is
 allocated

---
 src/core/model/xmmModelSharedParameters.cpp | 11 ++++++-----
 src/models/gmm/xmmGmmParameters.cpp         |  2 +-
 src/models/gmm/xmmGmmSingleClass.cpp        | 15 +++++++++++++++
 src/models/hmm/xmmHmmParameters.cpp         |  4 ++--
 src/models/hmm/xmmHmmSingleClass.cpp        | 15 +++++++++++++++
 5 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 1abcfa9..d70fcd1 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -87,16 +87,17 @@ xmm::SharedParameters::SharedParameters(SharedParameters const& src)
 xmm::SharedParameters::SharedParameters(Json::Value const& root)
     : SharedParameters() {
     bimodal.set(root.get("bimodal", false).asBool());
-    dimension.set(root.get("dimension", bimodal.get() ? 2 : 1).asInt());
+    dimension.set(
+        json2dimension(root.get("dimension", bimodal.get() ? 2 : 1)));
     dimension_input.set(
-        root.get("dimension_input", bimodal.get() ? 1 : 0).asInt());
+        json2dimension(root.get("dimension_input", bimodal.get() ? 1 : 0)));
     em_algorithm_min_iterations.set(
-        root.get("em_algorithm_min_iterations", 10).asInt());
+        root.get("em_algorithm_min_iterations", 10).asUInt());
     em_algorithm_max_iterations.set(
-        root.get("em_algorithm_max_iterations", 0).asInt());
+        root.get("em_algorithm_max_iterations", 0).asUInt());
     em_algorithm_percent_chg.set(
         root.get("em_algorithm_percent_chg", 0.01).asDouble());
-    likelihood_window.set(root.get("likelihood_window", 1).asInt());
+    likelihood_window.set(root.get("likelihood_window", 1).asUInt());
     std::vector<std::string> tmpColNames(dimension.get());
     for (int i = 0; i < tmpColNames.size(); i++)
         tmpColNames[i] = root["column_names"].get(i, "").asString();
diff --git a/src/models/gmm/xmmGmmParameters.cpp b/src/models/gmm/xmmGmmParameters.cpp
index adf4c97..c9ebae7 100644
--- a/src/models/gmm/xmmGmmParameters.cpp
+++ b/src/models/gmm/xmmGmmParameters.cpp
@@ -79,7 +79,7 @@ xmm::ClassParameters<xmm::GMM>::ClassParameters(Json::Value const& root)
     covariance_mode.onAttributeChange(
         this, &xmm::ClassParameters<xmm::GMM>::onAttributeChange);
 
-    gaussians.set(root["gaussians"].asInt());
+    gaussians.set(root["gaussians"].asUInt());
     relative_regularization.set(root["relative_regularization"].asDouble());
     absolute_regularization.set(root["absolute_regularization"].asDouble());
     covariance_mode.set(static_cast<GaussianDistribution::CovarianceMode>(
diff --git a/src/models/gmm/xmmGmmSingleClass.cpp b/src/models/gmm/xmmGmmSingleClass.cpp
index 64d7bd3..ff8beb0 100644
--- a/src/models/gmm/xmmGmmSingleClass.cpp
+++ b/src/models/gmm/xmmGmmSingleClass.cpp
@@ -50,6 +50,21 @@ xmm::SingleClassGMM::SingleClassGMM(std::shared_ptr<SharedParameters> p,
     : SingleClassProbabilisticModel(p, root) {
     parameters.fromJson(root["parameters"]);
 
+    checkJsonArray(root["mixture_coeffs"], parameters.gaussians.get());
+    checkJsonArray(root["components"], parameters.gaussians.get());
+    for (auto c : root["components"]) {
+        GaussianDistribution component(c);
+        if (c.get("bimodal", false).asBool() !=
+                shared_parameters->bimodal.get() ||
+            component.dimension.get() != shared_parameters->dimension.get() ||
+            component.dimension_input.get() !=
+                shared_parameters->dimension_input.get() ||
+            component.covariance_mode.get() !=
+                parameters.covariance_mode.get())
+            throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                                "components");
+    }
+
     allocate();
 
     json2vector(root["mixture_coeffs"], mixture_coeffs,
diff --git a/src/models/hmm/xmmHmmParameters.cpp b/src/models/hmm/xmmHmmParameters.cpp
index cbc058e..9f5fa96 100644
--- a/src/models/hmm/xmmHmmParameters.cpp
+++ b/src/models/hmm/xmmHmmParameters.cpp
@@ -90,8 +90,8 @@ xmm::ClassParameters<xmm::HMM>::ClassParameters(ClassParameters<HMM> const& src)
 
 xmm::ClassParameters<xmm::HMM>::ClassParameters(Json::Value const& root)
     : ClassParameters() {
-    states.set(root["states"].asInt());
-    gaussians.set(root["gaussians"].asInt());
+    states.set(root["states"].asUInt());
+    gaussians.set(root["gaussians"].asUInt());
     relative_regularization.set(root["relative_regularization"].asDouble());
     absolute_regularization.set(root["absolute_regularization"].asDouble());
     covariance_mode.set(static_cast<GaussianDistribution::CovarianceMode>(
diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 21ebe93..1780187 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -54,6 +54,21 @@ xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p,
     : SingleClassProbabilisticModel(p, root), is_hierarchical_(true) {
     parameters.fromJson(root["parameters"]);
 
+    checkJsonArray(root["states"], parameters.states.get());
+    if (parameters.transition_mode.get() == HMM::TransitionMode::Ergodic)
+        checkJsonArray(root["transition"], parameters.states.get(),
+                       parameters.states.get());
+    else
+        checkJsonArray(root["transition"], parameters.states.get(), 2);
+    for (auto s : root["states"]) {
+        SingleClassGMM state(p, s);
+        if (state.parameters.gaussians.get() != parameters.gaussians.get() ||
+            state.parameters.covariance_mode.get() !=
+                parameters.covariance_mode.get())
+            throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                                "states");
+    }
+
     allocate();
 
     if (parameters.transition_mode.get() == HMM::TransitionMode::Ergodic) {
-- 
2.43.0


From a297aa6ffb62d4e9fb9ad3d98ebc2c1b40eac994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:08 +0000
Subject: [PATCH 14/46] fix: a copied model has its own shared parameters in
 every class

---
 src/core/model/xmmModel.hpp            | 2 ++
 src/core/model/xmmModelSingleClass.hpp | 8 ++++++++
 src/models/hmm/xmmHmmSingleClass.cpp   | 8 ++++++++
 src/models/hmm/xmmHmmSingleClass.hpp   | 6 ++++++
 4 files changed, 24 insertions(+)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 835f21e..1533d18 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -90,6 +90,7 @@ class Model : public Writable {
                 "Cannot copy: source model is still training");
         models = src.models;
         for (auto& model : models) {
+            model.second.setSharedParameters(shared_parameters);
             model.second.training_events.removeListeners();
             model.second.training_events.addListener(
                 this,
@@ -141,6 +142,7 @@ class Model : public Writable {
             models.clear();
             models = src.models;
             for (auto& model : this->models) {
+                model.second.setSharedParameters(shared_parameters);
                 model.second.training_events.removeListeners();
                 model.second.training_events.addListener(
                     this,
diff --git a/src/core/model/xmmModelSingleClass.hpp b/src/core/model/xmmModelSingleClass.hpp
index 6bd9642..fe088d3 100644
--- a/src/core/model/xmmModelSingleClass.hpp
+++ b/src/core/model/xmmModelSingleClass.hpp
@@ -297,6 +297,14 @@ class SingleClassProbabilisticModel : public Writable {
     TrainingEvent training_status;
 
   protected:
+    /**
+     @brief Set the parameters shared among the classes of a model
+     @param p shared parameters
+     */
+    virtual void setSharedParameters(std::shared_ptr<SharedParameters> p) {
+        shared_parameters = p;
+    }
+
     /**
      @brief Allocate memory for the model's parameters
      @details called when dimensions are modified
diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 1780187..656bb17 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -109,6 +109,14 @@ xmm::SingleClassHMM& xmm::SingleClassHMM::operator=(SingleClassHMM const& src) {
     return *this;
 }
 
+void xmm::SingleClassHMM::setSharedParameters(
+    std::shared_ptr<SharedParameters> p) {
+    SingleClassProbabilisticModel::setSharedParameters(p);
+    for (auto& state : states) {
+        state.setSharedParameters(p);
+    }
+}
+
 #pragma mark -
 #pragma mark Parameters initialization
 void xmm::SingleClassHMM::allocate() {
diff --git a/src/models/hmm/xmmHmmSingleClass.hpp b/src/models/hmm/xmmHmmSingleClass.hpp
index 7dd78f3..4d92209 100644
--- a/src/models/hmm/xmmHmmSingleClass.hpp
+++ b/src/models/hmm/xmmHmmSingleClass.hpp
@@ -222,6 +222,12 @@ class SingleClassHMM : public SingleClassProbabilisticModel {
     std::vector<float> transition;
 
   protected:
+    /**
+     @brief Set the parameters shared among the classes of a model
+     @param p shared parameters
+     */
+    virtual void setSharedParameters(std::shared_ptr<SharedParameters> p);
+
     /**
      @brief Allocate model parameters
      */
-- 
2.43.0


From 7203f781e1de92ecbb21a06322b900f3b37e50fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:20 +0000
Subject: [PATCH 15/46] fix: models can be used right after being copied,
 assigned or loaded

---
 src/core/model/xmmModel.hpp           | 1 +
 src/models/gmm/xmmGmm.cpp             | 9 +++++++--
 src/models/hmm/xmmHierarchicalHmm.cpp | 3 +++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 1533d18..b841476 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -418,6 +418,7 @@ class Model : public Writable {
             Model<SingleClassModel, ModelType> tmp(root);
             *this = tmp;
             training_events = _tmp_training_events;
+            resetFiltering();
         } catch (JsonException& e) {
             throw e;
         }
diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index 07f7735..59890f4 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -37,9 +37,13 @@
 xmm::GMM::GMM(bool bimodal) : Model<SingleClassGMM, GMM>(bimodal) {}
 
 xmm::GMM::GMM(GMM const& src)
-    : Model<SingleClassGMM, GMM>(src), results(src.results) {}
+    : Model<SingleClassGMM, GMM>(src), results(src.results) {
+    resetFiltering();
+}
 
-xmm::GMM::GMM(Json::Value const& root) : Model<SingleClassGMM, GMM>(root) {}
+xmm::GMM::GMM(Json::Value const& root) : Model<SingleClassGMM, GMM>(root) {
+    resetFiltering();
+}
 
 xmm::GMM::~GMM() { cancelTraining(); }
 
@@ -47,6 +51,7 @@ xmm::GMM& xmm::GMM::operator=(GMM const& src) {
     if (this != &src) {
         Model<SingleClassGMM, GMM>::operator=(src);
         results = src.results;
+        resetFiltering();
     }
     return *this;
 }
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index e0ed259..e356595 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -45,6 +45,7 @@ xmm::HierarchicalHMM::HierarchicalHMM(HierarchicalHMM const &src)
     frontier_v1_ = src.frontier_v1_;
     frontier_v2_ = src.frontier_v2_;
     forward_initialized_ = false;
+    resetFiltering();
 }
 
 xmm::HierarchicalHMM::HierarchicalHMM(Json::Value const &root)
@@ -58,6 +59,7 @@ xmm::HierarchicalHMM::HierarchicalHMM(Json::Value const &root)
     }
     exit_transition.resize(size());
     json2vector(root["exit_transition"], exit_transition, size());
+    resetFiltering();
 }
 
 xmm::HierarchicalHMM &xmm::HierarchicalHMM::operator=(
@@ -71,6 +73,7 @@ xmm::HierarchicalHMM &xmm::HierarchicalHMM::operator=(
         frontier_v1_ = src.frontier_v1_;
         frontier_v2_ = src.frontier_v2_;
         forward_initialized_ = false;
+        resetFiltering();
     }
     return *this;
 }
-- 
2.43.0


From 23e2b2b965a1640eadcd59e34c55ab0720722063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:25 +0000
Subject: [PATCH 16/46] fix: loading a hierarchical HMM keeps its listeners

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index e356595..3ef0356 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -518,8 +518,10 @@ Json::Value xmm::HierarchicalHMM::toJson() const {
 void xmm::HierarchicalHMM::fromJson(Json::Value const &root) {
     checkTraining();
     try {
+        EventGenerator<TrainingEvent> _tmp_training_events(training_events);
         HierarchicalHMM tmp(root);
         *this = tmp;
+        training_events = _tmp_training_events;
     } catch (JsonException &e) {
         throw e;
     }
-- 
2.43.0


From 293c6074d900e2b7c11ec3c935c5b45a91316673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:26 +0000
Subject: [PATCH 17/46] fix: copied KMeans models have their own shared
 parameters

---
 src/models/kmeans/xmmKMeans.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/models/kmeans/xmmKMeans.cpp b/src/models/kmeans/xmmKMeans.cpp
index cd04cd6..497059d 100644
--- a/src/models/kmeans/xmmKMeans.cpp
+++ b/src/models/kmeans/xmmKMeans.cpp
@@ -48,12 +48,16 @@ xmm::KMeans::KMeans(unsigned int clusters_)
 }
 
 xmm::KMeans::KMeans(KMeans const& src)
-    : configuration(src.configuration),
+    : shared_parameters(
+          std::make_shared<SharedParameters>(*src.shared_parameters)),
+      configuration(src.configuration),
       centers(src.centers),
       initialization_mode(src.initialization_mode) {}
 
 xmm::KMeans& xmm::KMeans::operator=(KMeans const& src) {
     if (this != &src) {
+        shared_parameters =
+            std::make_shared<SharedParameters>(*src.shared_parameters);
         initialization_mode = src.initialization_mode;
         configuration = src.configuration;
         centers = src.centers;
-- 
2.43.0


From 071368e630a833c8adebd3fb0063b57786719af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:52 +0000
Subject: [PATCH 18/46] fix: the forward state of HMM classes is initialized by
 every constructor

---
 src/models/hmm/xmmHmmSingleClass.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 656bb17..5e9394a 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -33,7 +33,9 @@
 #include "xmmHmmSingleClass.hpp"
 
 xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p)
-    : SingleClassProbabilisticModel(p), is_hierarchical_(true) {}
+    : SingleClassProbabilisticModel(p),
+      is_hierarchical_(true),
+      forward_initialized_(false) {}
 
 xmm::SingleClassHMM::SingleClassHMM(SingleClassHMM const& src)
     : SingleClassProbabilisticModel(src),
@@ -42,7 +44,8 @@ xmm::SingleClassHMM::SingleClassHMM(SingleClassHMM const& src)
       prior(src.prior),
       transition(src.transition),
       is_hierarchical_(src.is_hierarchical_),
-      exit_probabilities_(src.exit_probabilities_) {
+      exit_probabilities_(src.exit_probabilities_),
+      forward_initialized_(false) {
     alpha.resize(parameters.states.get());
     previous_alpha_.resize(parameters.states.get());
     beta_.resize(parameters.states.get());
@@ -51,7 +54,9 @@ xmm::SingleClassHMM::SingleClassHMM(SingleClassHMM const& src)
 
 xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p,
                                     Json::Value const& root)
-    : SingleClassProbabilisticModel(p, root), is_hierarchical_(true) {
+    : SingleClassProbabilisticModel(p, root),
+      is_hierarchical_(true),
+      forward_initialized_(false) {
     parameters.fromJson(root["parameters"]);
 
     checkJsonArray(root["states"], parameters.states.get());
-- 
2.43.0


From 22f0dc6fbb4c86e3689c56059a5f7126a0ef56c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:56 +0000
Subject: [PATCH 19/46] fix: the first frame of a hierarchical HMM does not
 depend on the results of the previous performance

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 3ef0356..75de6ad 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -153,6 +153,9 @@ void xmm::HierarchicalHMM::forward_init(std::vector<float> const &observation) {
         for (int i = 0; i < 3; i++) {
             model.second.alpha_h[i].assign(N, 0.0);
         }
+        model.second.results.instant_likelihood = 0.0;
+        model.second.results.exit_likelihood = 0.0;
+        model.second.results.exit_ratio = 0.0;
 
         // Compute Emission probability and initialize on the first state of
         // the
-- 
2.43.0


From febf54f82547b31cb0c1358b7de33ea1e14c8c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:11 +0000
Subject: [PATCH 20/46] fix: exit points cannot be added to classes that are
 being trained

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 75de6ad..c1c2dd1 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -89,6 +89,7 @@ void xmm::HierarchicalHMM::clear() {
 
 void xmm::HierarchicalHMM::addExitPoint(int state, float proba) {
     // prevent_attribute_change();
+    checkTraining();
     for (auto &model : models) {
         model.second.addExitPoint(state, proba);
     }
-- 
2.43.0


From f3341f50f69d90ac7a86c2524a9da37eef31bb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:17 +0000
Subject: [PATCH 21/46] fix: hierarchical HMMs stay well-defined with certain
 exit points and unlikely classes

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 29 ++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index c1c2dd1..2a18610 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -33,6 +33,11 @@
 #include "xmmHierarchicalHmm.hpp"
 #include <algorithm>
 
+// Transition probability given that the primitive is not exited
+static double stayProbability(float transition, float exit_probability) {
+    return (exit_probability < 1.) ? transition / (1 - exit_probability) : 0.;
+}
+
 xmm::HierarchicalHMM::HierarchicalHMM(bool bimodal)
     : Model<SingleClassHMM, HMM>(bimodal), forward_initialized_(false) {}
 
@@ -234,9 +239,11 @@ void xmm::HierarchicalHMM::forward_update(
             HMM::TransitionMode::Ergodic) {
             for (int k = 0; k < N; ++k) {
                 for (unsigned int j = 0; j < N; ++j) {
-                    front[k] += dstModel.second.transition[j * N + k] /
-                                (1 - dstModel.second.exit_probabilities_[j]) *
-                                dstModel.second.alpha_h[0][j];
+                    front[k] +=
+                        stayProbability(
+                            dstModel.second.transition[j * N + k],
+                            dstModel.second.exit_probabilities_[j]) *
+                        dstModel.second.alpha_h[0][j];
                 }
 
                 for (int src_model_index = 0; src_model_index < num_classes;
@@ -264,11 +271,13 @@ void xmm::HierarchicalHMM::forward_update(
 
             // k>0: rest of the primitive
             for (int k = 1; k < N; ++k) {
-                front[k] += dstModel.second.transition[k * 2] /
-                            (1 - dstModel.second.exit_probabilities_[k]) *
+                front[k] += stayProbability(
+                                dstModel.second.transition[k * 2],
+                                dstModel.second.exit_probabilities_[k]) *
                             dstModel.second.alpha_h[0][k];
-                front[k] += dstModel.second.transition[(k - 1) * 2 + 1] /
-                            (1 - dstModel.second.exit_probabilities_[k - 1]) *
+                front[k] += stayProbability(
+                                dstModel.second.transition[(k - 1) * 2 + 1],
+                                dstModel.second.exit_probabilities_[k - 1]) *
                             dstModel.second.alpha_h[0][k - 1];
             }
 
@@ -313,8 +322,10 @@ void xmm::HierarchicalHMM::forward_update(
         }
 
         dstModel.second.results.exit_ratio =
-            dstModel.second.results.exit_likelihood /
-            dstModel.second.results.instant_likelihood;
+            (dstModel.second.results.instant_likelihood > 0.0)
+                ? dstModel.second.results.exit_likelihood /
+                      dstModel.second.results.instant_likelihood
+                : 0.0;
 
         dst_model_index++;
     }
-- 
2.43.0


From 06078e266d5fa7eaf83bd24ba16746f38b2ff9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:22 +0000
Subject: [PATCH 22/46] fix: the progress of an HMM class is normalized

---
 src/models/hmm/xmmHmmSingleClass.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 5e9394a..13ee757 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1320,14 +1320,17 @@ void xmm::SingleClassHMM::updateResults() {
     results.log_likelihood /= double(bufSize);
 
     results.progress = 0.0;
+    double progress_normalization_constant(0.0);
     for (int i = window_minindex_; i < window_maxindex_; ++i) {
-        if (is_hierarchical_)
-            results.progress +=
-                (alpha_h[0][i] + alpha_h[1][i] + alpha_h[2][i]) * i /
-                window_normalization_constant_;
-        else
-            results.progress += alpha[i] * i / window_normalization_constant_;
-    }
+        double state_probability =
+            is_hierarchical_
+                ? (alpha_h[0][i] + alpha_h[1][i] + alpha_h[2][i])
+                : alpha[i];
+        results.progress += state_probability * i;
+        progress_normalization_constant += state_probability;
+    }
+    if (progress_normalization_constant > 0.0)
+        results.progress /= progress_normalization_constant;
     double div = double(parameters.states.get() - 1);
     if(div == 0) div = 1;
     results.progress /= div;
-- 
2.43.0


From a69ac1467840df29bfdaef2c9f8b3bccc87472da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:28 +0000
Subject: [PATCH 23/46] fix: non-hierarchical HMMs count each frame once in the
 likelihood window

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 2a18610..375c0a6 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -408,6 +408,12 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
         } else {
             this->forward_init(observation);
         }
+
+        // Compute time progression
+        for (auto &model : models) {
+            model.second.updateAlphaWindow();
+            model.second.updateResults();
+        }
     } else {
         int i(0);
         for (auto &model : models) {
@@ -416,11 +422,6 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
         }
     }
 
-    // Compute time progression
-    for (auto &model : models) {
-        model.second.updateAlphaWindow();
-        model.second.updateResults();
-    }
     updateResults();
 
     if (shared_parameters->bimodal.get()) {
@@ -428,8 +429,10 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
         unsigned int dimension_input = shared_parameters->dimension_input.get();
         unsigned int dimension_output = dimension - dimension_input;
 
-        for (auto &model : models) {
-            model.second.regression(observation);
+        if (configuration.hierarchical.get()) {
+            for (auto &model : models) {
+                model.second.regression(observation);
+            }
         }
 
         if (configuration.multiClass_regression_estimator ==
-- 
2.43.0


From 6b25fb001f28e09ac856affca57385d1bca55947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:33 +0000
Subject: [PATCH 24/46] fix: normalized likelihoods always form a distribution

---
 src/models/gmm/xmmGmm.cpp             | 12 ++++++++++--
 src/models/hmm/xmmHierarchicalHmm.cpp | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index 59890f4..7d5aa87 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -32,6 +32,7 @@
  */
 
 #include "xmmGmm.hpp"
+#include <cmath>
 #include "../kmeans/xmmKMeans.hpp"
 
 xmm::GMM::GMM(bool bimodal) : Model<SingleClassGMM, GMM>(bimodal) {}
@@ -83,8 +84,15 @@ void xmm::GMM::updateResults() {
 
     i = 0;
     for (auto it = this->models.begin(); it != this->models.end(); ++it, ++i) {
-        results.instant_normalized_likelihoods[i] /= normconst_instant;
-        results.smoothed_normalized_likelihoods[i] /= normconst_smoothed;
+        results.instant_normalized_likelihoods[i] =
+            (normconst_instant > 0.0 && std::isfinite(normconst_instant))
+                ? results.instant_normalized_likelihoods[i] / normconst_instant
+                : 1. / static_cast<double>(size());
+        results.smoothed_normalized_likelihoods[i] =
+            (normconst_smoothed > 0.0 && std::isfinite(normconst_smoothed))
+                ? results.smoothed_normalized_likelihoods[i] /
+                      normconst_smoothed
+                : 1. / static_cast<double>(size());
     }
 }
 
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 375c0a6..4f512e7 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -32,6 +32,7 @@
 
 #include "xmmHierarchicalHmm.hpp"
 #include <algorithm>
+#include <cmath>
 
 // Transition probability given that the primitive is not exited
 static double stayProbability(float transition, float exit_probability) {
@@ -508,8 +509,15 @@ void xmm::HierarchicalHMM::updateResults() {
 
     i = 0;
     for (auto it = this->models.begin(); it != this->models.end(); ++it, ++i) {
-        results.instant_normalized_likelihoods[i] /= normconst_instant;
-        results.smoothed_normalized_likelihoods[i] /= normconst_smoothed;
+        results.instant_normalized_likelihoods[i] =
+            (normconst_instant > 0.0 && std::isfinite(normconst_instant))
+                ? results.instant_normalized_likelihoods[i] / normconst_instant
+                : 1. / static_cast<double>(size());
+        results.smoothed_normalized_likelihoods[i] =
+            (normconst_smoothed > 0.0 && std::isfinite(normconst_smoothed))
+                ? results.smoothed_normalized_likelihoods[i] /
+                      normconst_smoothed
+                : 1. / static_cast<double>(size());
     }
 }
 
-- 
2.43.0


From da3f0b769dd1a182117f4e0ce968309633e18b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:34 +0000
Subject: [PATCH 25/46] fix: classes with non-finite data fail to train

---
 src/models/gmm/xmmGmmSingleClass.cpp | 2 ++
 src/models/hmm/xmmHmmSingleClass.cpp | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/models/gmm/xmmGmmSingleClass.cpp b/src/models/gmm/xmmGmmSingleClass.cpp
index ff8beb0..4ce8ce7 100644
--- a/src/models/gmm/xmmGmmSingleClass.cpp
+++ b/src/models/gmm/xmmGmmSingleClass.cpp
@@ -467,6 +467,8 @@ double xmm::SingleClassGMM::emAlgorithmUpdate(TrainingSet* trainingSet) {
                 tbase += T;
             }
             components[c].mean[d] /= E[c];
+            if (!std::isfinite(components[c].mean[d]))
+                throw std::runtime_error("Convergence Error");
         }
     }
 
diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 13ee757..5197f72 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -917,7 +917,7 @@ void xmm::SingleClassHMM::baumWelch_estimateMeans(TrainingSet* trainingSet) {
                     states[i].components[c].mean[d] /=
                         gamma_sum_per_mixture_[i * numGaussians + c];
                 }
-                if (std::isnan(states[i].components[c].mean[d]))
+                if (!std::isfinite(states[i].components[c].mean[d]))
                     throw std::runtime_error("Convergence Error");
             }
         }
-- 
2.43.0


From f47a7b79687ebff488c82a58bea4f170d3fcfa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:38 +0000
Subject: [PATCH 26/46] fix: an HMM class whose initialization fails is
 reported as failed

---
 src/models/hmm/xmmHmmSingleClass.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 5197f72..c6e98b2 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -309,6 +309,8 @@ void xmm::SingleClassHMM::initMeansCovariancesWithGMMEM(
             parameters.absolute_regularization.get());
         tmpGMM.parameters.covariance_mode.set(parameters.covariance_mode.get());
         tmpGMM.train(&temp_ts);
+        if (tmpGMM.training_status.status != TrainingEvent::Status::Done)
+            throw std::runtime_error("Cannot initialize the states");
         for (unsigned int c = 0; c < parameters.gaussians.get(); c++) {
             states[n].components[c].mean = tmpGMM.components[c].mean;
             states[n].components[c].covariance =
-- 
2.43.0


From af0e1a2acd53aea7bb4f1f31e5306f1c82daecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:40 +0000
Subject: [PATCH 27/46] fix: classes without any recorded frame fail to train

---
 src/core/model/xmmModelSingleClass.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/model/xmmModelSingleClass.cpp b/src/core/model/xmmModelSingleClass.cpp
index 2f0023a..d88432e 100644
--- a/src/core/model/xmmModelSingleClass.cpp
+++ b/src/core/model/xmmModelSingleClass.cpp
@@ -117,7 +117,14 @@ void xmm::SingleClassProbabilisticModel::train(TrainingSet* trainingSet) {
 
     training_status.status = TrainingEvent::Status::Run;
 
-    if (trainingSet && !trainingSet->empty()) {
+    bool emptyData(true);
+    if (trainingSet) {
+        for (auto phrase_it = trainingSet->cbegin();
+             phrase_it != trainingSet->cend(); phrase_it++) {
+            if (phrase_it->second->size() > 0) emptyData = false;
+        }
+    }
+    if (!emptyData) {
         try {
             this->allocate();
         } catch (std::exception& e) {
-- 
2.43.0


From 21781c40e4e56c5a596afa8b3499cabd5f738c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:08 +0000
Subject: [PATCH 28/46] fix: regression combines classes with different
 covariance modes

---
 src/models/gmm/xmmGmm.cpp             | 14 +++++++++++++-
 src/models/hmm/xmmHierarchicalHmm.cpp | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index 7d5aa87..f209d4c 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -153,12 +153,22 @@ void xmm::GMM::filter(std::vector<float> const& observation) {
 
             int i(0);
             for (auto& model : models) {
+                bool full_covariance =
+                    (model.second.parameters.covariance_mode.get() ==
+                     GaussianDistribution::CovarianceMode::Full);
                 for (int d = 0; d < dimension_output; d++) {
                     results.output_values[d] +=
                         results.smoothed_normalized_likelihoods[i] *
                         model.second.results.output_values[d];
                     if ((configuration.covariance_mode.get() ==
                          GaussianDistribution::CovarianceMode::Full)) {
+                        if (!full_covariance) {
+                            results
+                                .output_covariance[d * dimension_output + d] +=
+                                results.smoothed_normalized_likelihoods[i] *
+                                model.second.results.output_covariance[d];
+                            continue;
+                        }
                         for (int d2 = 0; d2 < dimension_output; d2++)
                             results
                                 .output_covariance[d * dimension_output + d2] +=
@@ -169,7 +179,9 @@ void xmm::GMM::filter(std::vector<float> const& observation) {
                     } else {
                         results.output_covariance[d] +=
                             results.smoothed_normalized_likelihoods[i] *
-                            model.second.results.output_covariance[d];
+                            model.second.results.output_covariance
+                                [full_covariance ? d * dimension_output + d
+                                                 : d];
                     }
                 }
                 i++;
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 4f512e7..6e9bbf6 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -453,6 +453,9 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
 
             int i(0);
             for (auto &model : models) {
+                bool full_covariance =
+                    (model.second.parameters.covariance_mode.get() ==
+                     GaussianDistribution::CovarianceMode::Full);
                 for (int d = 0; d < dimension_output; d++) {
                     results.output_values[d] +=
                         results.smoothed_normalized_likelihoods[i] *
@@ -460,6 +463,13 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
 
                     if ((configuration.covariance_mode.get() ==
                          GaussianDistribution::CovarianceMode::Full)) {
+                        if (!full_covariance) {
+                            results
+                                .output_covariance[d * dimension_output + d] +=
+                                results.smoothed_normalized_likelihoods[i] *
+                                model.second.results.output_covariance[d];
+                            continue;
+                        }
                         for (int d2 = 0; d2 < dimension_output; d2++)
                             results
                                 .output_covariance[d * dimension_output + d2] +=
@@ -470,7 +480,9 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
                     } else {
                         results.output_covariance[d] +=
                             results.smoothed_normalized_likelihoods[i] *
-                            model.second.results.output_covariance[d];
+                            model.second.results.output_covariance
+                                [full_covariance ? d * dimension_output + d
+                                                 : d];
                     }
                 }
                 i++;
-- 
2.43.0


From 6cb638f7b1e74139eddd54923e178e4fe0c1dc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:57 +0000
Subject: [PATCH 29/46] fix: phrases without frames are skipped when estimating
 the prior of ergodic HMMs

---
 src/models/hmm/xmmHmmSingleClass.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index c6e98b2..1aac534 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1010,9 +1010,11 @@ void xmm::SingleClassHMM::baumWelch_estimatePrior(TrainingSet* trainingSet) {
     double sumprior = 0.;
     int phraseIndex(0);
     for (auto it = trainingSet->cbegin(); it != trainingSet->cend(); it++) {
-        for (int i = 0; i < numStates; i++) {
-            prior[i] += gamma_sequence_[phraseIndex][i];
-            sumprior += gamma_sequence_[phraseIndex][i];
+        if (it->second->size() > 0) {
+            for (int i = 0; i < numStates; i++) {
+                prior[i] += gamma_sequence_[phraseIndex][i];
+                sumprior += gamma_sequence_[phraseIndex][i];
+            }
         }
         phraseIndex++;
     }
-- 
2.43.0


From d980a00b66a897e795f9f396744782da35f5ab75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:16 +0000
Subject: [PATCH 30/46] fix: the exit likelihoods of non-hierarchical HMMs are
 defined

---
 src/models/hmm/xmmHmmSingleClass.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 1aac534..4841526 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1164,6 +1164,8 @@ double xmm::SingleClassHMM::filter(std::vector<float> const& observation) {
     forward_initialized_ = true;
 
     results.instant_likelihood = 1. / ct;
+    results.exit_likelihood = 0.0;
+    results.exit_ratio = 0.0;
     updateAlphaWindow();
     updateResults();
 
-- 
2.43.0


From f39dd7b966ed36ddd59fe41d4e3d2acc753eba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:12 +0000
Subject: [PATCH 31/46] fix: non-hierarchical HMM classes keep their forward
 variables when they are reset

---
 src/models/hmm/xmmHmmSingleClass.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 4841526..c88790c 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1135,6 +1135,10 @@ void xmm::SingleClassHMM::reset() {
         beta_.clear();
         previous_beta_.clear();
     } else {
+        alpha.resize(parameters.states.get());
+        previous_alpha_.resize(parameters.states.get());
+        beta_.resize(parameters.states.get());
+        previous_beta_.resize(parameters.states.get());
         addCyclicTransition(0.05);
     }
 }
-- 
2.43.0


From 15d67dc73c4d1a2110393e184eb344e633b6d480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:20 +0000
Subject: [PATCH 32/46] fix: a class can be trained at the very end of a
 background training

---
 src/core/model/xmmModel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index b841476..35a6ea5 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -574,8 +574,8 @@ class Model : public Writable {
         }
         updateAfterTraining();
         resetFiltering();
-        is_joining_ = false;
         is_training_ = false;
+        is_joining_ = false;
         TrainingEvent event(this, "", TrainingEvent::Status::Alldone);
         training_events.notifyListeners(event);
     }
-- 
2.43.0


From 470cd9bfccd282059004781e8f0faab672a1de40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:25 +0000
Subject: [PATCH 33/46] fix: new phrases have a column name per dimension, as
 when they are restored

---
 src/core/trainingset/xmmPhrase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 9b3d99d..e17cdd1 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -49,6 +49,7 @@ xmm::Phrase::Phrase(MemoryMode memoryMode, Multimodality multimodality)
     dimension.set((bimodal_) ? 2 : 1, true);
     dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 2 : 0);
     dimension_input.set((bimodal_) ? 1 : 0, true);
+    column_names.resize(dimension.get());
     data_ = new float*[bimodal_ ? 2 : 1];
     data_[0] = NULL;
     if (bimodal_) data_[1] = NULL;
-- 
2.43.0


From 98ab791dbf233d077352d1e64cc15ac677f9720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:15 +0000
Subject: [PATCH 34/46] fix: a phrase that cannot be added to a training set
 leaves nothing behind in it

---
 src/core/trainingset/xmmTrainingSet.cpp | 46 ++++++++++++++++---------
 src/core/trainingset/xmmTrainingSet.hpp | 15 ++++++++
 2 files changed, 44 insertions(+), 17 deletions(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index f291718..d803e43 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -229,34 +229,25 @@ std::shared_ptr<xmm::Phrase> xmm::TrainingSet::getPhrase(int n) const {
 }
 
 void xmm::TrainingSet::addPhrase(int phraseIndex, std::string label) {
-    releasePhrase(phraseIndex);
-    phrases_[phraseIndex] = std::make_shared<Phrase>(
+    std::shared_ptr<Phrase> phrase = std::make_shared<Phrase>(
         own_memory_ ? MemoryMode::OwnMemory : MemoryMode::SharedMemory,
         bimodal_ ? Multimodality::Bimodal : Multimodality::Unimodal);
-    phrases_[phraseIndex]->events.addListener(this,
-                                              &xmm::TrainingSet::onPhraseEvent);
-    phrases_[phraseIndex]->dimension.set(dimension.get());
-    phrases_[phraseIndex]->dimension_input.set(dimension_input.get());
-    phrases_[phraseIndex]->column_names = this->column_names.get();
-    phrases_[phraseIndex]->label.set(label, true);
+    phrase->dimension.set(dimension.get());
+    phrase->dimension_input.set(dimension_input.get());
+    phrase->column_names = this->column_names.get();
+    phrase->label.set(label, true);
+    storePhrase(phraseIndex, phrase);
     update();
 }
 
 void xmm::TrainingSet::addPhrase(int phraseIndex, Phrase const &phrase) {
-    std::shared_ptr<Phrase> new_phrase = std::make_shared<Phrase>(phrase);
-    releasePhrase(phraseIndex);
-    phrases_[phraseIndex] = new_phrase;
-    phrases_[phraseIndex]->events.addListener(this,
-                                              &xmm::TrainingSet::onPhraseEvent);
+    storePhrase(phraseIndex, std::make_shared<Phrase>(phrase));
     update();
 }
 
 void xmm::TrainingSet::addPhrase(int phraseIndex,
                                  std::shared_ptr<Phrase> phrase) {
-    releasePhrase(phraseIndex);
-    phrases_[phraseIndex] = phrase;
-    phrases_[phraseIndex]->events.addListener(this,
-                                              &xmm::TrainingSet::onPhraseEvent);
+    storePhrase(phraseIndex, phrase);
     update();
 }
 
@@ -265,11 +256,32 @@ void xmm::TrainingSet::removePhrase(int phraseIndex) {
     update();
 }
 
+void xmm::TrainingSet::storePhrase(int phraseIndex,
+                                   std::shared_ptr<Phrase> phrase) {
+    auto slot = phrases_.insert(std::make_pair(phraseIndex, phrase));
+    std::shared_ptr<Phrase> previous = slot.first->second;
+    slot.first->second = phrase;
+    try {
+        phrase->events.addListener(this, &xmm::TrainingSet::onPhraseEvent);
+    } catch (...) {
+        if (slot.second)
+            phrases_.erase(slot.first);
+        else
+            slot.first->second = previous;
+        throw;
+    }
+    stopListening(previous);
+}
+
 void xmm::TrainingSet::releasePhrase(int phraseIndex) {
     auto it = phrases_.find(phraseIndex);
     if (it == phrases_.end()) return;
     std::shared_ptr<Phrase> phrase = it->second;
     phrases_.erase(it);
+    stopListening(phrase);
+}
+
+void xmm::TrainingSet::stopListening(std::shared_ptr<Phrase> const &phrase) {
     for (auto &other : phrases_) {
         if (other.second == phrase) return;
     }
diff --git a/src/core/trainingset/xmmTrainingSet.hpp b/src/core/trainingset/xmmTrainingSet.hpp
index f0c2df8..aebdcea 100644
--- a/src/core/trainingset/xmmTrainingSet.hpp
+++ b/src/core/trainingset/xmmTrainingSet.hpp
@@ -332,6 +332,21 @@ class TrainingSet : public Writable {
      */
     void releasePhrase(int phraseIndex);
 
+    /**
+     @brief store a phrase at the given index, in place of the phrase stored
+     there if any, and listen to its events.
+     @param phraseIndex index of the phrase
+     @param phrase phrase to store
+     */
+    void storePhrase(int phraseIndex, std::shared_ptr<Phrase> phrase);
+
+    /**
+     @brief stop listening to the events of a phrase, unless it is stored in the
+     set.
+     @param phrase phrase
+     */
+    void stopListening(std::shared_ptr<Phrase> const &phrase);
+
     /**
      @brief defines if the phrase has its own memory
      */
-- 
2.43.0


From 52025786e4a1082c0226e664c09073e4e203e266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 35/46] fix: new shared parameters have a column name per
 dimension, as when they are restored

---
 src/core/model/xmmModelSharedParameters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index d70fcd1..f2cfb39 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -56,6 +56,7 @@ xmm::SharedParameters::SharedParameters()
         this, &xmm::SharedParameters::onAttributeChange);
     column_names.onAttributeChange(this,
                                    &xmm::SharedParameters::onAttributeChange);
+    column_names.resize(dimension.get());
 }
 
 xmm::SharedParameters::SharedParameters(SharedParameters const& src)
-- 
2.43.0


From 5274c638f9805b082a2481cba5ccfb659fbd4218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 36/46] fix: a Gaussian distribution can be set from an
 axis-aligned ellipse

---
 src/core/distributions/xmmGaussianDistribution.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index e03c4fb..c86e941 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -576,9 +576,10 @@ void xmm::GaussianDistribution::fromEllipse(Ellipse const& gaussian_ellipse,
         gaussian_ellipse.height * gaussian_ellipse.height / 5.991;
     double tantheta = std::tan(gaussian_ellipse.angle);
     double a, b, c;
-    b = (eigenVal1 - eigenVal2) * tantheta / (tantheta * tantheta + 1.);
-    c = eigenVal1 - b / tantheta;
-    a = eigenVal2 + b / tantheta;
+    double cos2theta = 1. / (tantheta * tantheta + 1.);
+    b = (eigenVal1 - eigenVal2) * tantheta * cos2theta;
+    c = eigenVal1 - (eigenVal1 - eigenVal2) * cos2theta;
+    a = eigenVal2 + (eigenVal1 - eigenVal2) * cos2theta;
 
     if (covariance_mode.get() == CovarianceMode::Full) {
         covariance[dimension1 * dimension.get() + dimension1] = a;
-- 
2.43.0


From 9602cd3b3e4f1c4553df05113879228ac62322d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 37/46] fix: an object that cannot be loaded or assigned for
 lack of memory is left as it was

---
 src/core/common/xmmAttribute.hpp              |  3 +-
 src/core/common/xmmEvents.hpp                 |  8 +++
 .../distributions/xmmGaussianDistribution.cpp | 11 ++--
 src/core/model/xmmModel.hpp                   | 50 ++++++++++---------
 src/core/model/xmmModelConfiguration.hpp      |  4 +-
 src/core/model/xmmModelSharedParameters.cpp   |  2 +-
 src/core/trainingset/xmmPhrase.cpp            |  2 +-
 src/core/trainingset/xmmTrainingSet.cpp       | 26 +++++-----
 src/models/gmm/xmmGmm.cpp                     | 14 ++++--
 src/models/gmm/xmmGmm.hpp                     | 12 +++++
 src/models/hmm/xmmHierarchicalHmm.cpp         | 27 +++++-----
 src/models/hmm/xmmHierarchicalHmm.hpp         |  7 +++
 12 files changed, 106 insertions(+), 60 deletions(-)

diff --git a/src/core/common/xmmAttribute.hpp b/src/core/common/xmmAttribute.hpp
index 2598503..238479d 100644
--- a/src/core/common/xmmAttribute.hpp
+++ b/src/core/common/xmmAttribute.hpp
@@ -505,7 +505,8 @@ class Attribute<std::vector<std::string>> : public AttributeBase {
      */
     Attribute& operator=(Attribute const& src) {
         if (this != &src) {
-            value_ = src.value_;
+            std::vector<std::string> value(src.value_);
+            value_.swap(value);
             limit_min_ = src.limit_min_;
             limit_max_ = src.limit_max_;
             size_ = src.size_;
diff --git a/src/core/common/xmmEvents.hpp b/src/core/common/xmmEvents.hpp
index 6468eb7..ac8d190 100644
--- a/src/core/common/xmmEvents.hpp
+++ b/src/core/common/xmmEvents.hpp
@@ -92,6 +92,14 @@ class EventGenerator {
      */
     void removeListeners() { callbacks_.clear(); }
 
+    /**
+     @brief Exchanges the listeners of two generators
+     @param other other generator
+     */
+    void swapListeners(EventGenerator& other) {
+        callbacks_.swap(other.callbacks_);
+    }
+
     /**
      @brief Propagates the event to all listeners
      @param e event
diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index c86e941..c5414ce 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -138,18 +138,19 @@ xmm::GaussianDistribution::GaussianDistribution(Json::Value const& root)
 xmm::GaussianDistribution& xmm::GaussianDistribution::operator=(
     GaussianDistribution const& src) {
     if (this != &src) {
+        GaussianDistribution tmp(src);
         bimodal_ = src.bimodal_;
         dimension = src.dimension;
         dimension_input = src.dimension_input;
         covariance_mode = src.covariance_mode;
 
-        mean = src.mean;
-        covariance = src.covariance;
-        inverse_covariance_ = src.inverse_covariance_;
+        mean.swap(tmp.mean);
+        covariance.swap(tmp.covariance);
+        inverse_covariance_.swap(tmp.inverse_covariance_);
         covariance_determinant_ = src.covariance_determinant_;
         covariance_determinant_input_ = src.covariance_determinant_input_;
-        inverse_covariance_input_ = src.inverse_covariance_input_;
-        output_covariance = src.output_covariance;
+        inverse_covariance_input_.swap(tmp.inverse_covariance_input_);
+        output_covariance.swap(tmp.output_covariance);
     }
     return *this;
 };
diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 35a6ea5..bb1165a 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -128,26 +128,8 @@ class Model : public Writable {
     Model<SingleClassModel, ModelType>& operator=(
         Model<SingleClassModel, ModelType> const& src) {
         if (this != &src) {
-            if (is_training_)
-                throw std::runtime_error(
-                    "Cannot copy: target model is still training");
-            if (src.is_training_)
-                throw std::runtime_error(
-                    "Cannot copy: source model is still training");
-            waitForTraining();
-            shared_parameters =
-                std::make_shared<SharedParameters>(*src.shared_parameters);
-            configuration = src.configuration;
-            training_events = src.training_events;
-            models.clear();
-            models = src.models;
-            for (auto& model : this->models) {
-                model.second.setSharedParameters(shared_parameters);
-                model.second.training_events.removeListeners();
-                model.second.training_events.addListener(
-                    this,
-                    &xmm::Model<SingleClassModel, ModelType>::onTrainingEvent);
-            }
+            Model<SingleClassModel, ModelType> tmp(src);
+            replaceWith(tmp);
         }
         return *this;
     }
@@ -414,10 +396,10 @@ class Model : public Writable {
      */
     void fromJson(Json::Value const& root) {
         try {
-            EventGenerator<TrainingEvent> _tmp_training_events(training_events);
             Model<SingleClassModel, ModelType> tmp(root);
-            *this = tmp;
-            training_events = _tmp_training_events;
+            tmp.training_events = training_events;
+            tmp.resetFiltering();
+            replaceWith(tmp);
             resetFiltering();
         } catch (JsonException& e) {
             throw e;
@@ -447,6 +429,28 @@ class Model : public Writable {
     std::map<std::string, SingleClassModel> models;
 
   protected:
+    /**
+     @brief Takes over the content of a temporary model
+     @details the model is unchanged if an exception is thrown
+     @param src temporary model
+     */
+    void replaceWith(Model<SingleClassModel, ModelType>& src) {
+        if (is_training_)
+            throw std::runtime_error(
+                "Cannot copy: target model is still training");
+        waitForTraining();
+        for (auto& model : src.models) {
+            model.second.training_events.removeListeners();
+            model.second.training_events.addListener(
+                this,
+                &xmm::Model<SingleClassModel, ModelType>::onTrainingEvent);
+        }
+        configuration = src.configuration;
+        shared_parameters.swap(src.shared_parameters);
+        training_events.swapListeners(src.training_events);
+        models.swap(src.models);
+    }
+
     /**
      @brief Copies the dimensions and names of a training set
      @param trainingSet Training Set
diff --git a/src/core/model/xmmModelConfiguration.hpp b/src/core/model/xmmModelConfiguration.hpp
index 6614fc8..75cfdb4 100644
--- a/src/core/model/xmmModelConfiguration.hpp
+++ b/src/core/model/xmmModelConfiguration.hpp
@@ -133,8 +133,10 @@ class Configuration : public ClassParameters<ModelType> {
      */
     Configuration& operator=(Configuration const& src) {
         if (this != &src) {
+            std::map<std::string, ClassParameters<ModelType>> class_parameters(
+                src.class_parameters_);
             ClassParameters<ModelType>::operator=(src);
-            class_parameters_ = src.class_parameters_;
+            class_parameters_.swap(class_parameters);
             multithreading = src.multithreading;
             multiClass_regression_estimator =
                 src.multiClass_regression_estimator;
diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index f2cfb39..0928b63 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -108,10 +108,10 @@ xmm::SharedParameters::SharedParameters(Json::Value const& root)
 xmm::SharedParameters& xmm::SharedParameters::operator=(
     SharedParameters const& src) {
     if (this != &src) {
+        column_names = src.column_names;
         bimodal = src.bimodal;
         dimension = src.dimension;
         dimension_input = src.dimension_input;
-        column_names = src.column_names;
         em_algorithm_min_iterations = src.em_algorithm_min_iterations;
         em_algorithm_max_iterations = src.em_algorithm_max_iterations;
         em_algorithm_percent_chg = src.em_algorithm_percent_chg;
diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index e17cdd1..54a6847 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -153,8 +153,8 @@ xmm::Phrase& xmm::Phrase::operator=(Phrase const& src) {
     if (this != &src) {
         Phrase tmp(src);
         bool label_changed = label.get() != src.label.get();
-        column_names = src.column_names;
         label = src.label;
+        column_names.swap(tmp.column_names);
         dimension = src.dimension;
         dimension_input = src.dimension_input;
         std::swap(own_memory_, tmp.own_memory_);
diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index d803e43..3b394ca 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -113,26 +113,26 @@ xmm::TrainingSet::TrainingSet(Json::Value const &root)
 
 xmm::TrainingSet &xmm::TrainingSet::operator=(TrainingSet const &src) {
     if (this != &src) {
-        // src can be one of the sub-training sets that 'clear' destroys
+        // src can be one of the sub-training sets of this training set
         TrainingSet tmp(src);
-        clear();
+        for (auto &phrase : tmp.phrases_) {
+            phrase.second->events.addListener(this,
+                                              &xmm::TrainingSet::onPhraseEvent);
+            phrase.second->events.removeListener(
+                &tmp, &xmm::TrainingSet::onPhraseEvent);
+        }
+        column_names = tmp.column_names;
         own_memory_ = tmp.own_memory_;
         bimodal_ = tmp.bimodal_;
         dimension = tmp.dimension;
         dimension_input = tmp.dimension_input;
-        column_names = tmp.column_names;
-        labels_ = tmp.labels_;
-        dimension.onAttributeChange(this, &xmm::TrainingSet::onAttributeChange);
-        dimension_input.onAttributeChange(this,
-                                          &xmm::TrainingSet::onAttributeChange);
-        column_names.onAttributeChange(this,
-                                       &xmm::TrainingSet::onAttributeChange);
-        for (auto phrase : tmp.phrases_) {
-            phrases_.insert(phrase);
-            phrases_[phrase.first]->events.addListener(
+        for (auto &phrase : phrases_) {
+            phrase.second->events.removeListener(
                 this, &xmm::TrainingSet::onPhraseEvent);
         }
-        update();
+        phrases_.swap(tmp.phrases_);
+        labels_.swap(tmp.labels_);
+        sub_training_sets_.swap(tmp.sub_training_sets_);
     }
     return *this;
 }
diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index f209d4c..e7e4c79 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -50,13 +50,21 @@ xmm::GMM::~GMM() { cancelTraining(); }
 
 xmm::GMM& xmm::GMM::operator=(GMM const& src) {
     if (this != &src) {
-        Model<SingleClassGMM, GMM>::operator=(src);
-        results = src.results;
-        resetFiltering();
+        GMM tmp(src);
+        replaceWith(tmp);
+        std::swap(results, tmp.results);
     }
     return *this;
 }
 
+void xmm::GMM::fromJson(Json::Value const& root) {
+    checkTraining();
+    GMM tmp(root);
+    tmp.training_events = training_events;
+    replaceWith(tmp);
+    std::swap(results, tmp.results);
+}
+
 void xmm::GMM::updateResults() {
     double maxLogLikelihood = 0.0;
     double normconst_instant(0.0);
diff --git a/src/models/gmm/xmmGmm.hpp b/src/models/gmm/xmmGmm.hpp
index 410b2a9..5a6c079 100644
--- a/src/models/gmm/xmmGmm.hpp
+++ b/src/models/gmm/xmmGmm.hpp
@@ -76,6 +76,18 @@ class GMM : public Model<SingleClassGMM, GMM> {
      */
     virtual ~GMM();
 
+    /** @name Json I/O */
+    ///@{
+
+    /**
+     @brief Read the object from a JSON Structure
+     @param root JSON value containing the object's information
+     @throws JsonException if the JSON value has a wrong format
+     */
+    virtual void fromJson(Json::Value const& root);
+
+    ///@}
+
     /** @name Performance */
     ///@{
 
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 6e9bbf6..f4b4b3a 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -71,19 +71,23 @@ xmm::HierarchicalHMM::HierarchicalHMM(Json::Value const &root)
 xmm::HierarchicalHMM &xmm::HierarchicalHMM::operator=(
     HierarchicalHMM const &src) {
     if (this != &src) {
-        Model<SingleClassHMM, HMM>::operator=(src);
-        results = src.results;
-        prior = src.prior;
-        exit_transition = src.exit_transition;
-        transition = src.transition;
-        frontier_v1_ = src.frontier_v1_;
-        frontier_v2_ = src.frontier_v2_;
-        forward_initialized_ = false;
-        resetFiltering();
+        HierarchicalHMM tmp(src);
+        replaceWith(tmp);
     }
     return *this;
 }
 
+void xmm::HierarchicalHMM::replaceWith(HierarchicalHMM &src) {
+    Model<SingleClassHMM, HMM>::replaceWith(src);
+    std::swap(results, src.results);
+    prior.swap(src.prior);
+    exit_transition.swap(src.exit_transition);
+    transition.swap(src.transition);
+    frontier_v1_.swap(src.frontier_v1_);
+    frontier_v2_.swap(src.frontier_v2_);
+    forward_initialized_ = false;
+}
+
 xmm::HierarchicalHMM::~HierarchicalHMM() { cancelTraining(); }
 
 void xmm::HierarchicalHMM::clear() {
@@ -556,10 +560,9 @@ Json::Value xmm::HierarchicalHMM::toJson() const {
 void xmm::HierarchicalHMM::fromJson(Json::Value const &root) {
     checkTraining();
     try {
-        EventGenerator<TrainingEvent> _tmp_training_events(training_events);
         HierarchicalHMM tmp(root);
-        *this = tmp;
-        training_events = _tmp_training_events;
+        tmp.training_events = training_events;
+        replaceWith(tmp);
     } catch (JsonException &e) {
         throw e;
     }
diff --git a/src/models/hmm/xmmHierarchicalHmm.hpp b/src/models/hmm/xmmHierarchicalHmm.hpp
index 32889df..d862e29 100644
--- a/src/models/hmm/xmmHierarchicalHmm.hpp
+++ b/src/models/hmm/xmmHierarchicalHmm.hpp
@@ -213,6 +213,13 @@ class HierarchicalHMM : public Model<SingleClassHMM, HMM> {
     std::vector<std::vector<double>> transition;
 
   protected:
+    /**
+     @brief Takes over the content of a temporary model
+     @details the model is unchanged if an exception is thrown
+     @param src temporary model
+     */
+    void replaceWith(HierarchicalHMM& src);
+
     /**
      @brief Updates the multi-class parameters at the end of the training
      @details: updates transition parameters after joining
-- 
2.43.0


From 764795364fd77df05d33be82dffcc3ed91ede1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 38/46] fix: the end of a background training is seen at once
 by a class being trained

---
 src/core/model/xmmModel.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index bb1165a..363bec8 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -578,8 +578,11 @@ class Model : public Writable {
         }
         updateAfterTraining();
         resetFiltering();
-        is_training_ = false;
-        is_joining_ = false;
+        {
+            std::lock_guard<std::mutex> lock(event_mutex_);
+            is_training_ = false;
+            is_joining_ = false;
+        }
         TrainingEvent event(this, "", TrainingEvent::Status::Alldone);
         training_events.notifyListeners(event);
     }
-- 
2.43.0


From e38784dee1052488ae98f1e8067299760e25b6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 39/46] fix: regression models without any class can filter

---
 src/models/gmm/xmmGmm.cpp             | 2 +-
 src/models/hmm/xmmHierarchicalHmm.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index e7e4c79..c2de0ab 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -138,7 +138,7 @@ void xmm::GMM::filter(std::vector<float> const& observation) {
 
     updateResults();
 
-    if (shared_parameters->bimodal.get()) {
+    if (shared_parameters->bimodal.get() && !models.empty()) {
         unsigned int dimension = shared_parameters->dimension.get();
         unsigned int dimension_input = shared_parameters->dimension_input.get();
         unsigned int dimension_output = dimension - dimension_input;
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index f4b4b3a..9ad39b7 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -429,7 +429,7 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
 
     updateResults();
 
-    if (shared_parameters->bimodal.get()) {
+    if (shared_parameters->bimodal.get() && !models.empty()) {
         unsigned int dimension = shared_parameters->dimension.get();
         unsigned int dimension_input = shared_parameters->dimension_input.get();
         unsigned int dimension_output = dimension - dimension_input;
-- 
2.43.0


From 01b17b54d6deb122ff2079a81156977d16a7a5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 40/46] fix: parameters that cannot be assigned for lack of
 memory are left as they were

---
 src/models/gmm/xmmGmmParameters.cpp |  9 ---------
 src/models/hmm/xmmHmmParameters.cpp | 16 ----------------
 2 files changed, 25 deletions(-)

diff --git a/src/models/gmm/xmmGmmParameters.cpp b/src/models/gmm/xmmGmmParameters.cpp
index c9ebae7..6f45fdc 100644
--- a/src/models/gmm/xmmGmmParameters.cpp
+++ b/src/models/gmm/xmmGmmParameters.cpp
@@ -94,15 +94,6 @@ xmm::ClassParameters<xmm::GMM>& xmm::ClassParameters<xmm::GMM>::operator=(
         relative_regularization = src.relative_regularization;
         absolute_regularization = src.absolute_regularization;
         covariance_mode = src.covariance_mode;
-
-        gaussians.onAttributeChange(
-            this, &xmm::ClassParameters<xmm::GMM>::onAttributeChange);
-        relative_regularization.onAttributeChange(
-            this, &xmm::ClassParameters<xmm::GMM>::onAttributeChange);
-        absolute_regularization.onAttributeChange(
-            this, &xmm::ClassParameters<xmm::GMM>::onAttributeChange);
-        covariance_mode.onAttributeChange(
-            this, &xmm::ClassParameters<xmm::GMM>::onAttributeChange);
     }
     return *this;
 }
diff --git a/src/models/hmm/xmmHmmParameters.cpp b/src/models/hmm/xmmHmmParameters.cpp
index 9f5fa96..a8b164c 100644
--- a/src/models/hmm/xmmHmmParameters.cpp
+++ b/src/models/hmm/xmmHmmParameters.cpp
@@ -115,22 +115,6 @@ xmm::ClassParameters<xmm::HMM>& xmm::ClassParameters<xmm::HMM>::operator=(
         transition_mode = src.transition_mode;
         regression_estimator = src.regression_estimator;
         hierarchical = src.hierarchical;
-        states.onAttributeChange(
-            this, &xmm::ClassParameters<xmm::HMM>::onAttributeChange);
-        gaussians.onAttributeChange(
-            this, &xmm::ClassParameters<xmm::HMM>::onAttributeChange);
-        relative_regularization.onAttributeChange(
-            this, &xmm::ClassParameters<xmm::HMM>::onAttributeChange);
-        absolute_regularization.onAttributeChange(
-            this, &xmm::ClassParameters<xmm::HMM>::onAttributeChange);
-        covariance_mode.onAttributeChange(
-            this, &xmm::ClassParameters<xmm::HMM>::onAttributeChange);
-        transition_mode.onAttributeChange(
-            this, &xmm::ClassParameters<xmm::HMM>::onAttributeChange);
-        regression_estimator.onAttributeChange(
-            this, &xmm::ClassParameters<xmm::HMM>::onAttributeChange);
-        hierarchical.onAttributeChange(
-            this, &xmm::ClassParameters<xmm::HMM>::onAttributeChange);
     }
     return *this;
 }
-- 
2.43.0


From 33a7015d4d4e4750b8fc00d77994776446d8769a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 41/46] fix: a KMeans model can be used right after being
 trained or copied

---
 src/models/kmeans/xmmKMeans.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/kmeans/xmmKMeans.cpp b/src/models/kmeans/xmmKMeans.cpp
index 497059d..2cf9538 100644
--- a/src/models/kmeans/xmmKMeans.cpp
+++ b/src/models/kmeans/xmmKMeans.cpp
@@ -208,6 +208,7 @@ void xmm::KMeans::filter(std::vector<float> const& observation) {
     if (observation.size() != shared_parameters->dimension.get())
         throw std::runtime_error("Observation has wrong dimension");
     int dimension = static_cast<int>(shared_parameters->dimension.get());
+    results.distances.resize(configuration.clusters.get());
     results.likeliest = 0;
     float minDistance(std::numeric_limits<float>::max());
     for (unsigned int k = 0; k < configuration.clusters.get(); ++k) {
-- 
2.43.0


From 5eefc9f94c9f7a3e64c994949d30b03bbe9d0f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 42/46] fix: hierarchical HMMs start again when no path
 explains a frame

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 9ad39b7..1b6269c 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -335,6 +335,12 @@ void xmm::HierarchicalHMM::forward_update(
         dst_model_index++;
     }
 
+    // No path explains the observation: start again from the priors
+    if (!(norm_const > 0.0)) {
+        forward_init(observation);
+        return;
+    }
+
     // Normalize Alpha variables
     for (auto &model : models) {
         unsigned int N = model.second.parameters.states.get();
-- 
2.43.0


From 9feef070c6a31d1cd0504e6de5748c1ab2c81e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 43/46] fix: keep the exit points of a class when the set of
 classes changes

---
 src/models/hmm/xmmHmmSingleClass.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index c88790c..c278474 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1394,10 +1394,11 @@ void xmm::SingleClassHMM::updateExitProbabilities(float* exitProbabilities) {
     unsigned int numStates = parameters.states.get();
 
     if (exitProbabilities == NULL) {
-        if (exit_probabilities_.size() != numStates)
+        if (exit_probabilities_.size() != numStates) {
             exit_probabilities_.assign(numStates, 0.0);
-        exit_probabilities_[numStates - 1] =
-            DEFAULT_EXITPROBABILITY_LAST_STATE();
+            exit_probabilities_[numStates - 1] =
+                DEFAULT_EXITPROBABILITY_LAST_STATE();
+        }
     } else {
         if (!is_hierarchical_)
             throw std::runtime_error(
-- 
2.43.0


From 45b05deabaeead6445e5b05be5f950626a83d8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 44/46] fix: training threads do not allocate memory to deliver
 their events

A class event was copied, with its label, before being forwarded by the
model, and the label of the class was copied into its status by the
training thread. When that copy failed the exception left the thread and
the process was terminated. Forward the event itself, and set the label
of the status when the class is added.
---
 src/core/model/xmmModel.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 363bec8..3a2752a 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -616,11 +616,13 @@ class Model : public Writable {
     /**
      @brief Monitors the training of each Model of the group.
      */
-    void onTrainingEvent(TrainingEvent const& e) {
+    void onTrainingEvent(TrainingEvent& e) {
         std::lock_guard<std::mutex> lock(event_mutex_);
-        TrainingEvent event(e);
-        event.model = this;
-        training_events.notifyListeners(event);
+        // The event is forwarded as it is: training threads must not fail
+        void* source = e.model;
+        e.model = this;
+        training_events.notifyListeners(e);
+        e.model = source;
     }
 
     /**
@@ -664,6 +666,7 @@ class Model : public Writable {
                 &xmm::Model<SingleClassModel, ModelType>::onTrainingEvent);
             models[label].label = label;
         }
+        models[label].training_status.label = label;
         if (configuration.class_parameters_.count(label) > 0) {
             models[label].parameters = configuration.class_parameters_[label];
         } else {
-- 
2.43.0


From 83610eaa294c78066f881340cce2541773decfb9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:27:02 +0000
Subject: [PATCH 45/46] fix: rescaling a training set changed a phrase stored
 under several indices more than once

---
 src/core/trainingset/xmmTrainingSet.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 3b394ca..46ca3fb 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -435,8 +435,11 @@ std::vector<std::pair<float, float>> xmm::TrainingSet::minmax() const {
 
 void xmm::TrainingSet::rescale(std::vector<float> offset,
                                std::vector<float> gain) {
+    // a phrase can be stored under several indices
+    std::set<Phrase *> rescaled;
     for (auto &phrase : phrases_) {
-        phrase.second->rescale(offset, gain);
+        if (rescaled.insert(phrase.second.get()).second)
+            phrase.second->rescale(offset, gain);
     }
 }
 
-- 
2.43.0


From f8d6e17f0d06e1a2260cb1ef6c22b79d95ad1b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:47 +0000
Subject: [PATCH 46/46] fix: the determinant of a matrix had the wrong sign
 after an exchange of lines

Covariances whose first pivot is below the threshold got a negative determinant,
and every likelihood computed with them the smallest possible value.
---
 src/core/common/xmmMatrix.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/common/xmmMatrix.hpp b/src/core/common/xmmMatrix.hpp
index b9611eb..86d5966 100644
--- a/src/core/common/xmmMatrix.hpp
+++ b/src/core/common/xmmMatrix.hpp
@@ -300,6 +300,7 @@ class Matrix {
             // if found > Exchange lines
             if (i != k) {
                 mat.swap_lines(i, k);
+                *det = -*det;
             }
 
             new_mat._data = mat._data;
-- 
2.43.0

