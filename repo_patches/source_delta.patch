From 64a1a41484090a949865da0cf88a7eaf787046a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 01/89] fix: block_pool records the index of inserted elements
 and ignores erasing elements it does not hold

Stale or never assigned indices relinked the block into the free list, which
corrupted it. The const accessors recursed without end or did not compile.
---
 esl/computation/block_pool.hpp | 64 ++++++++++++----------------------
 1 file changed, 22 insertions(+), 42 deletions(-)

diff --git a/esl/computation/block_pool.hpp b/esl/computation/block_pool.hpp
index f792404..23a478f 100644
--- a/esl/computation/block_pool.hpp
+++ b/esl/computation/block_pool.hpp
@@ -40,13 +40,12 @@ namespace esl::computation::block_pool {
     template<typename element_t_>
     struct block
     {
-#if DEBUG
         ///
-        /// \brief  Used to track overwriting/deleting non-existing items
-        ///         in debug mode
+        /// \brief  Whether the block contains an element. Used to prevent
+        ///         deleting non-existing items
         ///
-        bool set;
-#endif
+        bool set = false;
+
         ///
         /// \brief  The contained value
         ///
@@ -211,12 +210,6 @@ namespace esl::computation::block_pool {
             if(size_ >= capacity()) {
                 throw std::length_error("block_pool container at capacity");
             }
-#if DEBUG
-            if(end->set) {
-                throw std::logic_error("trying to insert on existing element");
-            }
-            end->set = true;
-#endif
             auto i        = end_;
             i->data       = e;
             // the offset is the number of positions since the start of the pool
@@ -245,6 +238,8 @@ namespace esl::computation::block_pool {
                 
             }
             highest_ = std::max(highest_, assigned_ + 1);
+            i->index = assigned_;
+            i->set   = true;
 
             return {assigned_, i};
         }
@@ -254,24 +249,16 @@ namespace esl::computation::block_pool {
         ///
         /// \param i
         /// \return 0 if no element was deleted (because the index was invalid/not in use), or 1 if the element with the index was located and removed.
-        size_type erase(index i)
-#if !DEBUG
-            noexcept
-#endif
+        size_type erase(index i) noexcept
         {
             block<element_t_> *removed_ = &blocks[i % capacity()];
             
-            if(removed_->index != i) {
+            // the index is stale, or was never assigned
+            if(!removed_->set || removed_->index != i) {
                 return 0;
-                //throw esl::exception("trying to delete stale order");
             }
+            removed_->set = false;
 
-#if DEBUG
-            if(!removed->set) {
-                throw std::exception("trying to erase non-existing element");
-            }
-            removed->set = false;
-#endif
             // we removed one element, so if this was the first in the list,
             // we need to move the begin pointer
             if(removed_ == begin_){
@@ -283,14 +270,6 @@ namespace esl::computation::block_pool {
             removed_->next = end_;
             end_           = removed_;
 
-            if(size_ == 0){
-#if DEBUG
-                throw std::exception("trying to erase non-existing element");
-#else
-                return 0;
-#endif
-            }
-
             --size_;
             return 1;
         }
@@ -309,24 +288,25 @@ namespace esl::computation::block_pool {
         /// 
         constexpr const_reference operator [] (index i) const
         {
-            return this->operator[](i);
+            return blocks[i % capacity()].data;
         }
 
-        constexpr reference at(index i)
+        ///
+        /// \brief  Returns a reference to the element at index i, which must
+        ///         be in the pool.
+        ///
+        reference at(index i)
         {
-            assert(blocks[i % capacity()].index == i);
-            block<element_t_> *element_ = blocks[i % capacity()];
-#if DEBUG
-            if(!element_->set) {
-                throw std::exception("trying to access non-existing element");
+            auto &element_ = blocks[i % capacity()];
+            if(!element_.set || element_.index != i) {
+                throw std::out_of_range("block_pool index not in use");
             }
-#endif
-            return *element_;
+            return element_.data;
         }
 
-        constexpr const_reference at(index i) const
+        const_reference at(index i) const
         {
-            return at(i);
+            return const_cast<static_block_pool *>(this)->at(i);
         }
     };
 }
-- 
2.43.0


From b2b4dd9a185840f6d13518bade8c35594c6e70f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 02/89] fix: static_order_book maps every price to a level of
 its own and back exactly

Floating point truncation decoded e.g. 0.29 to 0.28, so that orders were
executed at, and bid() and ask() showed, a price that nobody had quoted; the
maximum price was mapped past the last level; and with lot sizes smaller than
the currency denominator different prices shared a level.
---
 .../markets/order_book/static_order_book.hpp  | 46 +++++++++++--------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index be02149..7266690 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -143,13 +143,26 @@ namespace esl::economics::markets::order_book {
             std::function<quote(const mathematics::interval<quote> &limits, const limit &limit)> decode;
 
             ///
-            /// \brief  Computes the required number of tick levels
+            /// \brief  The value of a quote in the smallest representable
+            ///         increments
+            /// \return
+            static std::int64_t units(const quote &q)
+            {
+                return std::get<price>(q.type).value;
+            }
+
+            ///
+            /// \brief  Computes the required number of tick levels, which is
+            ///         at least one for every value between the limits
             /// \return
             size_t span(size_t lot, size_t ticks) const
             {
-                return static_cast<size_t>(
+                const auto ticks_ = static_cast<size_t>(
                     (double(valid_limits.upper) - double(valid_limits.lower)) * lot
                     * ticks + 1);
+                const auto units_ = static_cast<size_t>(
+                    units(valid_limits.upper) - units(valid_limits.lower) + 1);
+                return std::max(ticks_, units_);
             }
 
         public:
@@ -172,17 +185,13 @@ namespace esl::economics::markets::order_book {
                     return false;
                 }
 
-                const auto real_ = double(q);
-
-                const auto high_ = double(limits.upper);
-                const auto low_  = double(limits.lower);
+                const auto range_ = units(limits.upper) - units(limits.lower);
 
-                out_limit = static_cast<limit>(
-                    round(
-                    (real_ - low_)
-                    / (high_ - low_)
-                    * limits_.size())
-                );
+                // rounded up, so that the lowest level that decodes to the
+                // quote is the one used for all orders at that quote
+                const auto offset_ = units(q) - units(limits.lower);
+                const auto last_ = static_cast<std::int64_t>(limits_.size() - 1);
+                out_limit = 0 == range_ ? 0 : (offset_ * last_ + range_ - 1) / range_;
                 return true;
             }
 
@@ -193,13 +202,12 @@ namespace esl::economics::markets::order_book {
             /// \return
             /*C++20 constexpr*/ quote default_decode(const mathematics::interval<quote> &limits, const limit &limit)
             {
-                auto high_ = double(valid_limits.upper);
-                auto low_  = double(valid_limits.lower);
-
-                auto reverse = round((double(limit) * (high_ - low_)) * limits.lower.lot * limits.lower.lot);
-
-                auto intercept_ = low_ * limits.lower.lot * limits.lower.lot;
-                return quote( (reverse/ double(limits_.size()-1) +  intercept_) / limits.lower.lot, valid_limits.lower);
+                const auto range_ = units(limits.upper) - units(limits.lower);
+                const auto last_ = static_cast<std::int64_t>(limits_.size() - 1);
+                const auto offset_ = 0 == last_ ? 0 : limit * range_ / last_;
+                return quote( price( units(limits.lower) + offset_
+                                   , std::get<price>(limits.lower.type).valuation)
+                            , limits.lower.lot);
             }
 
             ///
-- 
2.43.0


From 3bbfa0f34861f63e35870d6932af176bbe6c146d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 03/89] fix: static_order_book has no best bid or ask when a
 side is empty

The pointers were left on the outermost levels, where orders of the other side
were taken for a bid or an ask, and could run past the levels.
---
 .../markets/order_book/static_order_book.hpp  | 57 ++++++++++++-------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index 7266690..9b5c6cb 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -245,8 +245,9 @@ namespace esl::economics::markets::order_book {
                 //  we make sure to set this explicitly
                 limits_.resize(span_, std::make_pair(nullptr, nullptr));
 
-                best_bid_ = &limits_.front();
-                best_ask_ = &limits_.back();
+                // both sides of the book are empty
+                best_bid_ = nullptr;
+                best_ask_ = nullptr;
 
                 encode = [&](const mathematics::interval<quote> &limits, const auto &q, auto &l) -> bool {
                     return default_encode(limits, q, l);
@@ -310,7 +311,7 @@ namespace esl::economics::markets::order_book {
             /// \return
             [[nodiscard]] std::optional<quote> bid() const override
             {
-                if(!best_bid_->first){
+                if(!best_bid_){
                     return {};
                 }
                 std::ptrdiff_t limit_ = best_bid_ - &limits_[0];
@@ -323,7 +324,7 @@ namespace esl::economics::markets::order_book {
             /// \return
             [[nodiscard]] std::optional<quote> ask() const override
             {
-                if(!best_ask_->first){
+                if(!best_ask_){
                     return {};
                 }
 
@@ -331,6 +332,30 @@ namespace esl::economics::markets::order_book {
                 return decode(valid_limits, limit_);
             }
 
+        private:
+            ///
+            /// \brief  Moves the best bid down to the next level with orders,
+            ///         if the level it points at was emptied
+            ///
+            void next_best_bid()
+            {
+                while(best_bid_ && !best_bid_->first) {
+                    best_bid_ = best_bid_ == &limits_.front() ? nullptr : best_bid_ - 1;
+                }
+            }
+
+            ///
+            /// \brief  Moves the best ask up to the next level with orders,
+            ///         if the level it points at was emptied
+            ///
+            void next_best_ask()
+            {
+                while(best_ask_ && !best_ask_->first) {
+                    best_ask_ = best_ask_ == &limits_.back() ? nullptr : best_ask_ + 1;
+                }
+            }
+
+        public:
             ///
             /// \brief  Matches an order, partially or fully, agains resting
             ///         orders at a given level in the book
@@ -413,21 +438,9 @@ namespace esl::economics::markets::order_book {
                         // if the aggressor was a buy order, it took away
                         // the best ask
                         if(order.side == limit_order::buy){
-                            // increase the best ask, until we find an order, or exhaust the order book
-                            // TODO: worst_ask_
-                            for(++best_ask_; best_ask_ <= &limits_.back(); ++best_ask_){
-                                if(best_ask_->first || best_ask_ == &limits_.back()){
-                                    break;
-                                }
-                            }
+                            next_best_ask();
                         }else{
-                            // decrease the best bid, until we find an order, or exhaust the order book
-                            // TODO: worst_bid_
-                            for(--best_bid_; best_bid_ >= &limits_[0]; --best_bid_){
-                                if(best_bid_->first || best_bid_ == &limits_[0]){
-                                    break;
-                                }
-                            }
+                            next_best_bid();
                         }
                     }
                     break;
@@ -583,9 +596,9 @@ namespace esl::economics::markets::order_book {
 
                 // because we are inserting, the best bid and ask can strictly improve
                 if(limit_order::buy == order.side){
-                    best_bid_ = std::max(best_bid_,  limit_level_);
+                    best_bid_ = best_bid_ ? std::max(best_bid_,  limit_level_) : limit_level_;
                 }else if(order.side == limit_order::sell){
-                    best_ask_ = std::min(best_ask_,  limit_level_);
+                    best_ask_ = best_ask_ ? std::min(best_ask_,  limit_level_) : limit_level_;
                 }
             }
 
@@ -693,7 +706,7 @@ namespace esl::economics::markets::order_book {
 
                 std::uint64_t displayed_ = 0;
                 std::vector<std::pair<std::uint32_t, double>> ask_displayed_;
-                for(auto i = best_ask_; i <= &limits_[limits_.size() - 1] && displayed_ < levels; ++i) {
+                for(auto i = best_ask_; i && i <= &limits_[limits_.size() - 1] && displayed_ < levels; ++i) {
                     if(!i->first) {
                         continue;
                     }
@@ -723,7 +736,7 @@ namespace esl::economics::markets::order_book {
                 //std::cout << "------------------------------------------------" << std::endl;
 
                 displayed_ = 0;
-                for(auto i = best_bid_; i >= &limits_[0] && displayed_ < levels; --i) {
+                for(auto i = best_bid_; i && i >= &limits_[0] && displayed_ < levels; --i) {
                     if(!i->first) {
                         continue;
                     }
-- 
2.43.0


From b28bbedfeeee6766b03459a6561523ecf3b24ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 04/89] fix: static_order_book::cancel ignores dead orders and
 updates the best prices

Cancelling an order that was filled or cancelled before unlinked other orders or
threw, and cancelling the last order at the best price left it as best price.
---
 .../markets/order_book/static_order_book.hpp  | 78 ++++++-------------
 1 file changed, 24 insertions(+), 54 deletions(-)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index 9b5c6cb..e62d399 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -610,59 +610,28 @@ namespace esl::economics::markets::order_book {
             /// \param order
             void cancel(basic_book::order_identifier order) override
             {
-                record &order_ = pool_[order];
+                const record order_ = pool_[order];
 
+                // the order was matched fully/cancelled before, or never
+                // existed, so we can't do anything here
+                if(0 == pool_.erase(order)) {
+                    return;
+                }
+
+                // resting orders at or below the best bid are buy orders, the
+                // others are sell orders
                 auto side_ = limit_order::side_t::buy;
-                // if there is no bid, or the best bid is lower than this order,
-                // this must be a sell order.
                 auto bid_ = bid();
                 if(!bid_.has_value() || bid_.value() < order_.limit){
                     side_ = limit_order::side_t::sell;
                 }
 
                 limit limit_index_;
-                auto encode_success_ = encode(valid_limits, order_.limit, limit_index_);
-                limit_type *limit_level_ = &limits_[limit_index_];
-
-                
-                // The order could be cancelled/matched before, and nothing is left at this level
-                if(!limit_level_->first || !limit_level_->second) {
-                    return;
-                }
-
-
-                if(limit_level_->first->index == order) {
-                    limits_[limit_index_].first =
-                        limit_level_->first->data.successor;
-                }
-
-
-                if(limit_level_->second->index == order) {
-                    limits_[limit_index_].second =
-                        limit_level_->second->data.predecessor;
+                if(!encode(valid_limits, order_.limit, limit_index_)){
+                    throw esl::exception("quote not mapped to valid order book index");
                 }
+                limit_type *limit_level_ = &limits_[limit_index_];
 
-                // either both were set to an order
-                bool both_set_ = (limits_[limit_index_].first
-                                  && limits_[limit_index_].second);
-                // or both are empty
-                bool none_set_ = (!limits_[limit_index_].first
-                                  && !limits_[limit_index_].second);
-
-                assert(both_set_ || none_set_ );
-
-                auto result_ = pool_.erase(order);
-
-                // canceled
-                if(0 == result_) {
-                    // the order was matched fully/cancelled before, so we can't
-                    // do anything here
-                    //LOG(warning) << "canceled dead order << " << order << std::endl;
-                    return;
-                }
-/*
-                std::cout << "cancelling an order of " << order_.quantity
-                          << " times " << order_.limit << std::endl; */ 
                 reports.emplace_back(execution_report
                                          ( execution_report::cancel
                                          , side_
@@ -672,25 +641,26 @@ namespace esl::economics::markets::order_book {
                                          , order_.owner
                                          ));
 
+                // take the order out of the queue at its limit
                 if(order_.predecessor) {
-                    order_.predecessor->data.successor = order_.successor; 
+                    order_.predecessor->data.successor = order_.successor;
+                }else{
+                    limit_level_->first = order_.successor;
                 }
 
                 if(order_.successor) {
                     order_.successor->data.predecessor = order_.predecessor;
+                }else{
+                    limit_level_->second = order_.predecessor;
                 }
 
-                if(order_.predecessor) {
-                    order_.predecessor = nullptr;
-                }
-
-                if(order_.successor) {
-                    order_.successor = nullptr;
+                // if that was the last order at the best price, the next
+                // level becomes the best
+                if(side_ == limit_order::side_t::buy) {
+                    next_best_bid();
+                }else{
+                    next_best_ask();
                 }
-
-                order_.limit    = quote();
-                order_.owner    = identity<agent>();
-                order_.quantity = 0;
             }
 
             ///
-- 
2.43.0


From bfb00524db79e28f5b30b84018719274cafbd777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 05/89] fix: static_order_book reports orders with another lot
 size as invalid

The comparison with the limits throws for these, before the lot was tested.
---
 esl/economics/markets/order_book/static_order_book.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index e62d399..f08466a 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -456,9 +456,11 @@ namespace esl::economics::markets::order_book {
             /// \return
             void insert(const limit_order &order) override
             {
-                if(!valid_limits.contains(order.limit) || 0 >= order.quantity || order.limit.lot != valid_limits.lower.lot ){
+                // quotes with different lot sizes can not be compared, so this is tested first
+                const bool lot_valid_ = order.limit.lot == valid_limits.lower.lot;
+                if(!lot_valid_ || !valid_limits.contains(order.limit) || 0 >= order.quantity){
 
-                    if(!valid_limits.contains(order.limit)){
+                    if(lot_valid_ && !valid_limits.contains(order.limit)){
                         LOG(warning) << "Order invalid because it is outside the accepted range: " << this->valid_limits << std::endl;
                     }
 
@@ -468,7 +470,7 @@ namespace esl::economics::markets::order_book {
                                      << order.quantity << std::endl;
                     }
 
-                    if(order.limit.lot != valid_limits.lower.lot){
+                    if(!lot_valid_){
                         LOG(warning)
                             << "Order invalid because it does not use an "
                                "acceptable lot size "
-- 
2.43.0


From 631b77c43d3f1c09de7b6b4dbe9259be64450b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 06/89] fix: static_order_book does not execute fill-or-kill
 orders partially

---
 .../markets/order_book/static_order_book.hpp  | 36 +++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index f08466a..571f104 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -355,6 +355,27 @@ namespace esl::economics::markets::order_book {
                 }
             }
 
+            ///
+            /// \brief  Whether the orders resting at or better than the limit
+            ///         suffice to execute the order entirely
+            ///
+            [[nodiscard]] bool fillable(const limit_order &order, limit_type *limit_level) const
+            {
+                std::uint64_t available_ = 0;
+                const bool buy_ = order.side == limit_order::buy;
+                for( auto l = buy_ ? best_ask_ : best_bid_
+                   ; l && (buy_ ? l <= limit_level : l >= limit_level)
+                   ; buy_ ? ++l : --l) {
+                    for(auto o = l->first; o; o = o->data.successor) {
+                        available_ += o->data.quantity;
+                        if(available_ >= order.quantity) {
+                            return true;
+                        }
+                    }
+                }
+                return false;
+            }
+
         public:
             ///
             /// \brief  Matches an order, partially or fully, agains resting
@@ -505,6 +526,21 @@ namespace esl::economics::markets::order_book {
 
                 limit_type *limit_level_ = &limits_[limit_index_];
 
+                if(order.lifetime == limit_order::lifetime_t::fill_or_kill
+                   && !fillable(order, limit_level_)) {
+                    // the order can not be executed completely, so it is
+                    // not executed at all
+                    reports.emplace_back(execution_report
+                                             ( execution_report::cancel
+                                             , order.side
+                                             , order.quantity
+                                             , basic_book::direct_order
+                                             , order.limit
+                                             , order.owner
+                                             ));
+                    return;
+                }
+
                 if(order.side == limit_order::buy && ask().has_value() && order.limit >= ask().value()) {
                     // direct execution: buyer aggressor
                     for(auto al = best_ask_; al <= limit_level_ && 0 < remainder_; ++al){
-- 
2.43.0


From 34da5bdd74b017a295f2d4a45ad421045e7b5a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 07/89] fix: binary_tree_order_book no longer lists cancelled
 orders

---
 esl/economics/markets/order_book/binary_tree_order_book.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esl/economics/markets/order_book/binary_tree_order_book.hpp b/esl/economics/markets/order_book/binary_tree_order_book.hpp
index b85441a..f6f47a5 100644
--- a/esl/economics/markets/order_book/binary_tree_order_book.hpp
+++ b/esl/economics/markets/order_book/binary_tree_order_book.hpp
@@ -269,6 +269,7 @@ namespace esl::economics::markets::order_book {
                                 , i->second.second.owner
                                 });
                             orders_bid.erase(i);
+                            limit_orders_.erase(o);
                             break;
                         }
                     }
@@ -287,6 +288,7 @@ namespace esl::economics::markets::order_book {
                                 , o->second
                                 , i->second.second.owner});
                             orders_ask.erase(i);
+                            limit_orders_.erase(o);
                             break;
                         }
                     }
-- 
2.43.0


From 1ab90b3a50ad20d090e3d2384f5feb18a41631d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 08/89] fix: binary_tree_order_book honours fill-or-kill and
 immediate-or-cancel orders

The lifetime of an order was ignored, so that these orders rested in the book.
---
 .../order_book/binary_tree_order_book.hpp     | 49 ++++++++++++++++++-
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/esl/economics/markets/order_book/binary_tree_order_book.hpp b/esl/economics/markets/order_book/binary_tree_order_book.hpp
index f6f47a5..8499555 100644
--- a/esl/economics/markets/order_book/binary_tree_order_book.hpp
+++ b/esl/economics/markets/order_book/binary_tree_order_book.hpp
@@ -104,12 +104,53 @@ namespace esl::economics::markets::order_book {
             return quote(orders_ask.begin()->first);
         }
 
+    private:
+        ///
+        /// \brief  Reports that (the remainder of) an order is not executed
+        ///
+        void report_cancel(const limit_order &order, std::uint32_t remainder)
+        {
+            reports.emplace_back(execution_report
+                { execution_report::cancel
+                , order.side
+                , remainder
+                , direct_order
+                , order.limit
+                , order.owner
+                });
+        }
+
+        ///
+        /// \brief  Whether the orders resting at or better than the limit
+        ///         suffice to execute the order entirely
+        ///
+        [[nodiscard]] bool fillable(const limit_order &order) const
+        {
+            std::uint64_t available_ = 0;
+            if(limit_order::side_t::buy == order.side) {
+                for(auto i = orders_ask.begin(); i != orders_ask.end() && order.limit >= i->first; ++i) {
+                    available_ += i->second.second.quantity;
+                }
+            }else{
+                for(auto i = orders_bid.begin(); i != orders_bid.end() && order.limit <= i->first; ++i) {
+                    available_ += i->second.second.quantity;
+                }
+            }
+            return available_ >= order.quantity;
+        }
+
+    public:
         ///
         /// \brief
         ///
         /// \param order
         void insert(const limit_order &order) override
         {
+            if(order.lifetime == limit_order::lifetime_t::fill_or_kill && !fillable(order)) {
+                report_cancel(order, order.quantity);
+                return;
+            }
+
             if(limit_order::side_t::buy == order.side){
                 auto remainder_ = order.quantity;
 
@@ -160,7 +201,9 @@ namespace esl::economics::markets::order_book {
                     orders_ask.erase(it);
                 }
 
-                if(remainder_ > 0) {
+                if(remainder_ > 0 && order.lifetime == limit_order::lifetime_t::immediate_or_cancel) {
+                    report_cancel(order, remainder_);
+                }else if(remainder_ > 0) {
                     // place remainder
                     limit_order placed_ = order;
                     placed_.quantity    = remainder_;
@@ -226,7 +269,9 @@ namespace esl::economics::markets::order_book {
                     orders_bid.erase(it);
                 }
 
-                if(remainder_ > 0) {
+                if(remainder_ > 0 && order.lifetime == limit_order::lifetime_t::immediate_or_cancel) {
+                    report_cancel(order, remainder_);
+                }else if(remainder_ > 0) {
                     limit_order placed_ = order;
                     placed_.quantity    = remainder_;
                     auto pair_          = std::make_pair(next_, placed_);
-- 
2.43.0


From af0dd6ba9b75c57fc1fffffb70ef3c635dc90ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 09/89] fix: decrementing a quantity decrements it, and never
 wraps below zero

The prefix operator incremented the amount.
---
 esl/quantity.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/esl/quantity.hpp b/esl/quantity.hpp
index 6db2e96..8a5d8e0 100644
--- a/esl/quantity.hpp
+++ b/esl/quantity.hpp
@@ -322,7 +322,7 @@ namespace esl {
 
         quantity& operator -- ()
         {
-            ++amount;
+            (*this) -= quantity(1);
             return *this;
         }
 
@@ -333,6 +333,9 @@ namespace esl {
 
         [[nodiscard]] constexpr quantity operator -- (int)
         {
+            if(0 == amount) {
+                throw esl::exception("decrement results in negative quantity");
+            }
             return quantity(amount--);
         }
 
-- 
2.43.0


From 373dc06ca2572951a4f2c85b83c87480a43947cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 10/89] fix: price arithmetic across currencies throws like
 comparisons do

The assertions aborted, or let the prices mix when compiled out.
---
 esl/economics/price.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/esl/economics/price.hpp b/esl/economics/price.hpp
index f254242..2cbdd59 100644
--- a/esl/economics/price.hpp
+++ b/esl/economics/price.hpp
@@ -160,13 +160,13 @@ namespace esl::economics {
 
         [[nodiscard]] constexpr price operator + (const price &operand) const
         {
-            assert(valuation == operand.valuation);
+            detail::assert_equal_currencies(valuation, operand.valuation);
             return price(value + operand.value, valuation);
         }
 
         constexpr price &operator += (const price &operand)
         {
-            assert(valuation == operand.valuation);
+            detail::assert_equal_currencies(valuation, operand.valuation);
             value += operand.value;
             return *this;
         }
@@ -178,13 +178,13 @@ namespace esl::economics {
 
         [[nodiscard]] constexpr price operator - (const price &operand) const
         {
-            assert(valuation == operand.valuation);
+            detail::assert_equal_currencies(valuation, operand.valuation);
             return price(value - operand.value, valuation);
         }
 
         constexpr price &operator -= (const price &operand)
         {
-            assert(valuation == operand.valuation);
+            detail::assert_equal_currencies(valuation, operand.valuation);
             value -= operand.value;
             return *this;
         }
@@ -192,26 +192,26 @@ namespace esl::economics {
 
         [[nodiscard]] constexpr price operator*(const price &operand) const
         {
-            assert(valuation == operand.valuation);
+            detail::assert_equal_currencies(valuation, operand.valuation);
             return price(value * operand.value, valuation);
         }
 
         constexpr price &operator*=(const price &operand)
         {
-            assert(valuation == operand.valuation);
+            detail::assert_equal_currencies(valuation, operand.valuation);
             value *= operand.value;
             return *this;
         }
 
         [[nodiscard]] constexpr price operator/(const price &operand) const
         {
-            assert(valuation == operand.valuation);
+            detail::assert_equal_currencies(valuation, operand.valuation);
             return price(value / operand.value, valuation);
         }
 
         constexpr price &operator/=(const price &operand)
         {
-            assert(valuation == operand.valuation);
+            detail::assert_equal_currencies(valuation, operand.valuation);
             value /= operand.value;
             return *this;
         }
-- 
2.43.0


From 3c82880fd19e23340b49b28d6895c0174bf1bdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 11/89] fix: prices are restored when loaded from an archive

The text was read and then ignored.
---
 esl/economics/price.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/esl/economics/price.hpp b/esl/economics/price.hpp
index 2cbdd59..ba43646 100644
--- a/esl/economics/price.hpp
+++ b/esl/economics/price.hpp
@@ -343,6 +343,16 @@ namespace esl::economics {
             std::string res_ = stream_.str();
 
             archive & boost::serialization::make_nvp("price", res_);
+
+            if constexpr(archive_t::is_loading::value) {
+                std::array<char, 3> code_;
+                char separator_;
+                std::uint64_t denominator_;
+                std::istringstream input_(res_);
+                input_.read(code_.data(), code_.size());
+                input_ >> value >> separator_ >> denominator_;
+                valuation = iso_4217(code_, denominator_);
+            }
         }
     };
 }
-- 
2.43.0


From d140f13028e69af916ce5728cd9089e5bd3d99ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 12/89] fix: quote::operator>= rejects different lot sizes like
 all other comparisons

---
 esl/economics/markets/quote.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esl/economics/markets/quote.hpp b/esl/economics/markets/quote.hpp
index b260df6..408244e 100644
--- a/esl/economics/markets/quote.hpp
+++ b/esl/economics/markets/quote.hpp
@@ -232,6 +232,8 @@ namespace esl::economics::markets {
         {
             assert_equal_type_(other);
 
+            assert_equal_lot_(other);
+
             return std::visit([&] (const auto& k) {
                 using variant_ = std::decay_t<decltype(k)>;
                 //return (lot * k) >= (std::get<variant_>(other.type) * other.lot );
-- 
2.43.0


From cbb22a9ed17b11761ae65ab041a0967bb18e5b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 13/89] fix: quotes restore their price when loaded from an
 archive

The saved variant index 0 was treated as an exchange rate, which is no longer
one of the alternatives.
---
 esl/economics/markets/quote.hpp | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/esl/economics/markets/quote.hpp b/esl/economics/markets/quote.hpp
index 408244e..3f55b84 100644
--- a/esl/economics/markets/quote.hpp
+++ b/esl/economics/markets/quote.hpp
@@ -354,12 +354,6 @@ namespace esl::economics::markets {
             archive &BOOST_SERIALIZATION_NVP(index_);
             switch(index_) {
             case 0:
-                //if(auto *vp = std::get_if<exchange_rate>(&type)  ){
-                //    archive << boost::serialization::make_nvp(
-                //        "exchange_rate", (vp));
-                //    break;
-                //}
-            case 1:
                 if(auto *vp = std::get_if<price>(&type)  ){
                     archive << boost::serialization::make_nvp(
                         "price", *vp);
@@ -380,10 +374,6 @@ namespace esl::economics::markets {
             size_t index_ = 0;
             archive >> BOOST_SERIALIZATION_NVP(index_);
             if(0 == index_) {
-                //exchange_rate re;
-                //archive >> boost::serialization::make_nvp("exchange_rate", re);
-                //type.emplace<0>(re);
-            } else if(1 == index_) {
                 price p;
                 archive >> boost::serialization::make_nvp("price", p);
                 type.emplace<price>(p);
-- 
2.43.0


From aec529107d06740d605e695b7dfef040d4448990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 14/89] fix: exchange rates apply to negative prices

The amount was converted to an unsigned number before it was divided.
---
 esl/economics/exchange_rate.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/esl/economics/exchange_rate.hpp b/esl/economics/exchange_rate.hpp
index 45fadca..5797562 100644
--- a/esl/economics/exchange_rate.hpp
+++ b/esl/economics/exchange_rate.hpp
@@ -141,7 +141,10 @@ namespace esl::economics {
         /// \return
         constexpr price operator * (const price &p) const
         {
-            return price(static_cast<int64_t>((p.value * numerator()) / denominator()), p.valuation);
+            // signed, because prices can be negative
+            return price( p.value * static_cast<int64_t>(numerator())
+                                  / static_cast<int64_t>(denominator())
+                        , p.valuation);
         }
 
 
-- 
2.43.0


From 0c446b827b21701b69eeadb5dd2b47f63f26033a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 15/89] fix: rationals are archived at full width, and exchange
 rates compile

Numerator and denominator were truncated to int; exchange_rate named a base
class that it does not have.
---
 esl/economics/exchange_rate.hpp | 2 +-
 esl/mathematics/rational.hpp    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/esl/economics/exchange_rate.hpp b/esl/economics/exchange_rate.hpp
index 5797562..eb22532 100644
--- a/esl/economics/exchange_rate.hpp
+++ b/esl/economics/exchange_rate.hpp
@@ -159,7 +159,7 @@ namespace esl::economics {
             (void)version;
             archive &boost::serialization::make_nvp(
                 "rate_std::uint64_t_",
-                boost::serialization::base_object<rate<>>(*this));
+                boost::serialization::base_object<rate<std::uint64_t>>(*this));
         }
     };
 }
diff --git a/esl/mathematics/rational.hpp b/esl/mathematics/rational.hpp
index b25fa48..10358e7 100644
--- a/esl/mathematics/rational.hpp
+++ b/esl/mathematics/rational.hpp
@@ -42,7 +42,7 @@ namespace boost::serialization {
               unsigned version)
     {
         (void)version;
-        int n = r.numerator(), d = r.denominator();
+        T n = r.numerator(), d = r.denominator();
         archive &boost::serialization::make_nvp("numerator", n);
         archive &boost::serialization::make_nvp("denominator", d);
     }
@@ -51,7 +51,7 @@ namespace boost::serialization {
     void load(archive_t &archive, boost::rational<T> &r, unsigned version)
     {
         (void)version;
-        int n, d;
+        T n, d;
         archive &boost::serialization::make_nvp("numerator", n);
         archive &boost::serialization::make_nvp("denominator", d);
         r = boost::rational<T>(n, d);
-- 
2.43.0


From 648cc58f17c336e59d599d088d39bc9acedf5df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 16/89] fix: a negative amount of money is an error, not a huge
 quantity

---
 esl/economics/money.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esl/economics/money.hpp b/esl/economics/money.hpp
index f60cee3..5e74186 100644
--- a/esl/economics/money.hpp
+++ b/esl/economics/money.hpp
@@ -77,6 +77,9 @@ namespace esl::economics {
                         std::function<uint64_t(double)> rounding_rule =
                         rounding::integer_towards_zero<double, uint64_t>)
         {
+            if(real < 0.) {
+                throw esl::exception("a negative amount of money is not a quantity");
+            }
             return quantity(rounding_rule(real * denomination.denominator));
         }
 
-- 
2.43.0


From 1752d7c71ba6361fa34a1df7ffa801baca43c348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 17/89] fix: iso_4217 order is consistent with equality

---
 esl/economics/iso_4217.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/iso_4217.hpp b/esl/economics/iso_4217.hpp
index 4bbfa0f..a845ea6 100644
--- a/esl/economics/iso_4217.hpp
+++ b/esl/economics/iso_4217.hpp
@@ -121,7 +121,7 @@ namespace esl::economics {
                 }
             }
 
-            return false;
+            return denominator < operand.denominator;
         }
 
         [[nodiscard]] explicit operator std::string() const
-- 
2.43.0


From 70eba98d59556610dbeb89f2e765eb047209587f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 18/89] fix: share_class order is consistent with equality

---
 esl/economics/finance/share_class.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/esl/economics/finance/share_class.hpp b/esl/economics/finance/share_class.hpp
index 797e904..00f14e0 100644
--- a/esl/economics/finance/share_class.hpp
+++ b/esl/economics/finance/share_class.hpp
@@ -25,6 +25,8 @@
 
 #include <cstdint>
 
+#include <tuple>
+
 #include <boost/functional/hash.hpp>
 
 #include <boost/serialization/serialization.hpp>
@@ -109,7 +111,8 @@ namespace esl::economics::finance {
 
         constexpr bool operator < (const share_class &s) const
         {
-            return rank < s.rank;
+            return std::tie(  rank,   votes,   preference,   dividend,   cumulative,   redeemable)
+                 < std::tie(s.rank, s.votes, s.preference, s.dividend, s.cumulative, s.redeemable);
         }
 
         template<class archive_t>
-- 
2.43.0


From e91cc1904a4bc4ccf30287d55ab19d0da2dd5f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 19/89] fix: ISINs made from 11 symbols or text take the NSIN
 from behind the country code

---
 esl/economics/finance/isin.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/finance/isin.hpp b/esl/economics/finance/isin.hpp
index 003f584..413f8cb 100644
--- a/esl/economics/finance/isin.hpp
+++ b/esl/economics/finance/isin.hpp
@@ -71,7 +71,7 @@ namespace esl::economics::finance {
                   //: throw esl::exception("ISO 3166-1 alpha-2 country code needs to be two characters")
 
                 )
-        , code(esl::array_slice<0, 9>(code))
+        , code(esl::array_slice<2, 11>(code))
         {
 
         }
-- 
2.43.0


From 36ebb01dedb7e70447090aec3df7f4bbc7cee964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 20/89] fix: securities codes of wrong length or with a wrong
 check digit are errors

---
 esl/algorithms.hpp              |  5 ++++-
 esl/economics/finance/cusip.hpp |  7 ++++++-
 esl/economics/finance/isin.hpp  | 14 +++++++++-----
 esl/economics/finance/sedol.hpp | 13 ++++++++-----
 4 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/esl/algorithms.hpp b/esl/algorithms.hpp
index f031d91..9f43282 100644
--- a/esl/algorithms.hpp
+++ b/esl/algorithms.hpp
@@ -32,6 +32,7 @@
 #include <iterator>
 #include <vector>
 #include <numeric>
+#include <stdexcept>
 #include <utility>
 #include <tuple>
 
@@ -82,7 +83,9 @@ namespace esl {
     to_array(const container_t_ &collection)
     {
         static_assert(end_ >= begin_);
-        assert(collection.size() >= end_);
+        if(collection.size() < end_) {
+            throw std::out_of_range("collection has too few elements for array");
+        }
         std::array<element_t_, size_t(end_ - begin_)> result_;
         auto first_ = collection.begin();
         std::advance(first_, begin_);
diff --git a/esl/economics/finance/cusip.hpp b/esl/economics/finance/cusip.hpp
index c5f6c6d..9a7c923 100644
--- a/esl/economics/finance/cusip.hpp
+++ b/esl/economics/finance/cusip.hpp
@@ -96,7 +96,12 @@ namespace esl::economics::finance {
         explicit cusip(const std::string &code = "00000000")
         : cusip(esl::to_array<0, 6, char>(code), esl::to_array<6, 8, char>(code))
         {
-
+            if(!(8 == code.size() || 9 == code.size())){
+                throw esl::exception("A valid CUSIP is constructed from 8 or 9 symbols.");
+            }
+            if(9 == code.size() && this->checksum() != code[8]){
+                throw esl::exception("invalid CUSIP checksum");
+            }
         }
 
     protected:
diff --git a/esl/economics/finance/isin.hpp b/esl/economics/finance/isin.hpp
index 413f8cb..d4030e2 100644
--- a/esl/economics/finance/isin.hpp
+++ b/esl/economics/finance/isin.hpp
@@ -85,9 +85,12 @@ namespace esl::economics::finance {
         isin(geography::iso_3166_1_alpha_2 issuer, const std::string &nsin_code)
         : isin(issuer, esl::to_array<0, 9, char>(nsin_code))
         {
-            if((9 > code.size()) || (10 < code.size())){
+            if((9 > nsin_code.size()) || (10 < nsin_code.size())){
                 throw esl::exception("A valid ISIN has 9 symbols in the NSIN part, or 9 symbols plus the ISIN checksum.");
             }
+            if(10 == nsin_code.size() && checksum() != nsin_code[9]){
+                throw esl::exception("invalid ISIN checksum");
+            }
         }
 
         ///
@@ -97,11 +100,9 @@ namespace esl::economics::finance {
         /// \param code     The code part describing a security as a string with
         ///                 the code symbols in positions 0-8
         isin(const std::string &issuer, const std::string &nsin_code)
-        : isin(geography::iso_3166_1_alpha_2(issuer), esl::to_array<0, 9, char>(nsin_code))
+        : isin(geography::iso_3166_1_alpha_2(issuer), nsin_code)
         {
-            if(2 != issuer.size()){
-                throw esl::exception("The issuer part of the ISIN must be 2 letters (ISO 3166)");
-            }
+
         }
 
         ///
@@ -114,6 +115,9 @@ namespace esl::economics::finance {
             if(!(11 == code.size() || 12 == code.size())){
                 throw esl::exception("A valid ISIN is constructed from 11 or 12 symbols.");
             }
+            if(12 == code.size() && checksum() != code[11]){
+                throw esl::exception("invalid ISIN checksum");
+            }
         }
 
         ///
diff --git a/esl/economics/finance/sedol.hpp b/esl/economics/finance/sedol.hpp
index 6091b36..2d802fe 100644
--- a/esl/economics/finance/sedol.hpp
+++ b/esl/economics/finance/sedol.hpp
@@ -54,7 +54,9 @@ namespace esl::economics::finance {
         : code(code)
         {
             for(auto c: code){
-                assert(std::isdigit(c) || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z'));
+                if(!(('0' <= c && c <= '9') || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z'))){
+                    throw esl::exception("SEDOL symbols must be letters or digits");
+                }
             }
         }
 
@@ -66,10 +68,11 @@ namespace esl::economics::finance {
         explicit sedol(const std::string &code = "000000")
         : sedol(esl::to_array<0, 6, char>(code))
         {
-            assert(6 == code.size() || 7 == code.size());
-
-            if(7 == code.size()){
-                assert(std::isdigit(code[6]));
+            if(!(6 == code.size() || 7 == code.size())){
+                throw esl::exception("A valid SEDOL is constructed from 6 or 7 symbols.");
+            }
+            if(7 == code.size() && this->checksum() != code[6]){
+                throw esl::exception("invalid SEDOL checksum");
             }
         }
 
-- 
2.43.0


From fbeceb2a9145470861d147687a27c0d65cb8a80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 21/89] fix: malformed legal entity identifiers are errors, and
 the default one is well-formed

---
 esl/law/legal_entity.hpp | 47 ++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/esl/law/legal_entity.hpp b/esl/law/legal_entity.hpp
index ce5f8d6..b81c097 100644
--- a/esl/law/legal_entity.hpp
+++ b/esl/law/legal_entity.hpp
@@ -34,7 +34,7 @@
 #include <boost/serialization/nvp.hpp>
 #include <boost/multiprecision/cpp_int.hpp>
 
-#include <cassert>
+#include <esl/exception.hpp>
 
 namespace esl::law {
 
@@ -49,6 +49,28 @@ namespace esl::law {
     ///
     struct iso_17442
     {
+    private:
+        ///
+        /// \brief  Checks that text is formatted as 4 digits, two zeros, and 12
+        ///         digits or capital letters, optionally followed by the
+        ///         checksum
+        ///
+        static const std::string &valid_(const std::string &text)
+        {
+            if(!(18 == text.length() || 20 == text.length())) {
+                throw esl::exception("A valid LEI is constructed from 18 or 20 symbols");
+            }
+            for(size_t i = 0; i < 18; ++i) {
+                const bool digit_ = '0' <= text[i] && '9' >= text[i];
+                const bool letter_ = 'A' <= text[i] && 'Z' >= text[i];
+                if(i < 4 ? !digit_ : i < 6 ? '0' != text[i] : !(digit_ || letter_)) {
+                    throw esl::exception("unexpected symbol in LEI");
+                }
+            }
+            return text;
+        }
+
+    public:
         ///
         /// \brief The local part describing the local issuing party of the LEI.
         ///
@@ -65,8 +87,9 @@ namespace esl::law {
         /// \param local    The local part describing the local issuing party of
         /// the LEI. \param code     The code part describing uniquely a firm
         /// that is in the issuing party's business area.
-        constexpr iso_17442(const std::array<char, 4> &local = {'0'},
-                               const std::array<char, 12> &code = {'0'})
+        constexpr iso_17442(const std::array<char, 4> &local = {'0', '0', '0', '0'},
+                               const std::array<char, 12> &code = {'0', '0', '0', '0', '0', '0',
+                                                                   '0', '0', '0', '0', '0', '0'})
         : local(local), code(code)
         {
 
@@ -79,24 +102,16 @@ namespace esl::law {
         ///             checksum (compared to computed value), when assertions
         ///             are enabled.
         explicit iso_17442(const std::string &text)
-        : local {text[0], text[1], text[2], text[3]}
+        : local {valid_(text)[0], text[1], text[2], text[3]}
         , code {text[6],  text[7],  text[8],  text[9],  text[10], text[11],
                 text[12], text[13], text[14], text[15], text[16], text[17]}
         {
-            assert(18 == text.length() || 20 == text.length());
-            for(auto i = 0; i < 4; ++i) {
-                assert('0' <= text[i] && '9' >= text[i]);
-            }
-            assert('0' == text[4] && '0' == text[5]);
-            for(auto i = 6; i < 18; ++i) {
-                assert(('0' <= text[i] && '9' >= text[i])
-                       || ('A' <= text[i] && 'Z' >= text[i]));
-            }
-
             if(20 == text.length()){
                 auto checksum_ = this->checksum();
-                assert(text[18] == std::get<0>(checksum_)
-                       && text[19] == std::get<1>(checksum_));
+                if(!(text[18] == std::get<0>(checksum_)
+                     && text[19] == std::get<1>(checksum_))) {
+                    throw esl::exception("invalid LEI checksum");
+                }
             }
         }
 
-- 
2.43.0


From 01fcf665de3e42a190eb4c7cdf91cd4948d2cd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 22/89] fix: market identifier codes are made from exactly four
 symbols

---
 esl/economics/markets/iso_10383.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/iso_10383.hpp b/esl/economics/markets/iso_10383.hpp
index 928cdca..4d01c5b 100644
--- a/esl/economics/markets/iso_10383.hpp
+++ b/esl/economics/markets/iso_10383.hpp
@@ -61,7 +61,9 @@ namespace esl::economics::markets {
         /// \brief Construct an ISO 10383 code from a 4 symbol string.
         /// \param  code A  4 symbol alphanumeric code A-Z | 0-9
         explicit iso_10383(const std::string &code)
-        : iso_10383(std::array<char, 4> {code[0], code[1], code[2], code[3]})
+        : iso_10383(4 == code.size()
+                        ? std::array<char, 4> {code[0], code[1], code[2], code[3]}
+                        : throw esl::exception("market identifier code needs to be four symbols"))
         {
 
         }
-- 
2.43.0


From 17862c610ad01c62749457b9bf98bab21af919ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:16 +0000
Subject: [PATCH 23/89] fix: inventories remove several items at once or none,
 and no longer hold property that reached zero

---
 esl/economics/accounting/inventory.hpp | 65 +++++++++++++++++++++-----
 1 file changed, 54 insertions(+), 11 deletions(-)

diff --git a/esl/economics/accounting/inventory.hpp b/esl/economics/accounting/inventory.hpp
index c14331e..a6190cd 100644
--- a/esl/economics/accounting/inventory.hpp
+++ b/esl/economics/accounting/inventory.hpp
@@ -186,6 +186,9 @@ namespace esl::economics::accounting {
 
         void insert(std::shared_ptr<property_t_> item, quantity q)
         {
+            if(q.amount == 0) {
+                return;
+            }
             auto iterator_ = items.find(item);
             if(items.end() == iterator_) {
                 items.insert(std::make_pair(item, q));
@@ -203,22 +206,42 @@ namespace esl::economics::accounting {
 
         void erase(std::shared_ptr<property_t_> item, const quantity &q)
         {
-            auto iterator_ = items.find(item);
-
-            if(items.end() == iterator_ && q.amount > 0) {
-                throw insufficent_inventory(quantity(0), q, item->identifier, boost::core::demangle(typeid(property_t_).name()));
+            if(q.amount == 0) {
+                return;
             }
 
-            if(iterator_->second < q) {
-                throw insufficent_inventory(iterator_->second, q, item->identifier, boost::core::demangle(typeid(property_t_).name()));
+            require(item, q);
+
+            auto iterator_ = items.find(item);
+            if(iterator_->second == q) {
+                items.erase(iterator_);
+            } else {
+                iterator_->second -= q;
             }
+        }
 
-            iterator_->second -= q;
+        ///
+        /// \brief  Throws if less than the quantity specified is held
+        ///
+        void require(const std::shared_ptr<property_t_> &item, const quantity &q) const
+        {
+            auto iterator_ = items.find(item);
+            auto held_ = items.end() == iterator_ ? quantity(0) : iterator_->second;
+            if(held_ < q) {
+                throw insufficent_inventory(held_, q, item->identifier, boost::core::demangle(typeid(property_t_).name()));
+            }
         }
 
         void erase(const inventory_by_fungibility<property_t_, true> &removed)
         {
+            // either all or none of the items are removed
             for(const auto &[k, v]: removed.items) {
+                require(k, v);
+            }
+
+            // copied, so that an inventory can be removed from itself
+            auto removed_ = removed.items;
+            for(const auto &[k, v]: removed_) {
                 erase(k, v);
             }
         }
@@ -227,6 +250,9 @@ namespace esl::economics::accounting {
         void insert_into(law::property_map<quantity> &m) const
         {
             for(auto [k, v] : items) {
+                if(v == 0) {
+                    continue;
+                }
                 auto i = m.find(k);
                 if(m.end() == i) {
                     m.insert(std::make_pair(k, v));
@@ -237,7 +263,10 @@ namespace esl::economics::accounting {
         }
 
 
-        void erase_from(law::property_map<quantity> &m) const
+        ///
+        /// \brief  Throws if not all items are held in the quantities required
+        ///
+        void require_from(const law::property_map<quantity> &m) const
         {
             for(auto [k, v] : items) {
                 if(v == 0){
@@ -246,12 +275,26 @@ namespace esl::economics::accounting {
                 auto i = m.find(k);
                 if(m.end() == i) {
                     //LOG(errorlog) << "when looking for property " << boost::core::demangle(typeid(property_t_).name()) << " id: "<< k->identifier << " no entry was found" << std::endl;
-                    throw insufficent_inventory(quantity(0), quantity(1), k->identifier, boost::core::demangle(typeid(property_t_).name()));
+                    throw insufficent_inventory(quantity(0), v, k->identifier, boost::core::demangle(typeid(property_t_).name()));
                 } else if(i->second < v) {
                     //LOG(errorlog) << "when looking for property " << boost::core::demangle(typeid(property_t_).name()) << " id: "<< k->identifier << " there were insufficient ("<<i->second<<") items to withdraw " << v << std::endl;
                     throw insufficent_inventory(i->second, v, k->identifier, k->name());
-                } else if(i->second == v) {
-                    m.erase(k);
+                }
+            }
+        }
+
+        void erase_from(law::property_map<quantity> &m) const
+        {
+            // either all or none of the items are removed
+            require_from(m);
+
+            for(auto [k, v] : items) {
+                if(v == 0){
+                    continue;
+                }
+                auto i = m.find(k);
+                if(i->second == v) {
+                    m.erase(i);
                 } else {
                     i->second -= v;
                 }
-- 
2.43.0


From 894bd98c7c3f0ea724d5d8b44e7ce8b108c85ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:16 +0000
Subject: [PATCH 24/89] fix: inventories of infungible property refuse to
 remove what they do not hold, and accept sets

---
 esl/economics/accounting/inventory.hpp | 37 ++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/esl/economics/accounting/inventory.hpp b/esl/economics/accounting/inventory.hpp
index a6190cd..4e1b5c3 100644
--- a/esl/economics/accounting/inventory.hpp
+++ b/esl/economics/accounting/inventory.hpp
@@ -344,32 +344,59 @@ namespace esl::economics::accounting {
         /// property \param values
         void insert(const law::property_set &values)
         {
-            items.insert(values.begin(), values.end());
+            for(const auto &value : values) {
+                auto item_ = std::dynamic_pointer_cast<property_t_>(value);
+                if(item_) {
+                    insert(item_);
+                }
+            }
         }
 
         void erase(std::shared_ptr<property_t_> value)
         {
+            require(value);
             items.erase(value);
         }
 
+        ///
+        /// \brief  Throws if the item is not held
+        ///
+        void require(const std::shared_ptr<property_t_> &value) const
+        {
+            if(items.end() == items.find(value)) {
+                throw insufficent_inventory(quantity(0), quantity(1), value->identifier, boost::core::demangle(typeid(property_t_).name()));
+            }
+        }
+
         ///
         /// \brief  Adds an overload to erase to insert entire collections of
         /// property \param values
         void erase(const law::property_set &values)
         {
-            items.erase(values.begin(), values.end());
+            std::vector<std::shared_ptr<property_t_>> items_;
+            for(const auto &value : values) {
+                auto item_ = std::dynamic_pointer_cast<property_t_>(value);
+                if(item_) {
+                    require(item_);
+                    items_.push_back(item_);
+                }
+            }
+            for(const auto &item : items_) {
+                items.erase(item);
+            }
         }
 
         void insert_into(law::property_map<quantity> &m) const
         {
             for(auto k : items) {
                 auto i = m.find(k);
-                if(m.end() == i) {
-                    m.insert({k, quantity(1)});
-                } else {
+                if(m.end() != i) {
                     throw duplicate_infungible(i->second + 1);
                 }
             }
+            for(auto k : items) {
+                m.insert({k, quantity(1)});
+            }
         }
 
         /*
-- 
2.43.0


From 8f34c9be83f1bb345ea3de5dafea77b2d1e3d303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 25/89] fix: transfers to oneself change nothing, and refused
 transfers leave all holdings as they were

---
 esl/economics/owner.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/esl/economics/owner.hpp b/esl/economics/owner.hpp
index 1307ace..06602b2 100644
--- a/esl/economics/owner.hpp
+++ b/esl/economics/owner.hpp
@@ -195,7 +195,15 @@ namespace esl::law {
                                             simulation::time_interval ti,
                                             std::seed_seq &seed) {
                 (void)seed;
+                if(msg->transferor == msg->transferee) {
+                    return ti.upper;
+                }
+
                 if((*this).identifier == msg->transferor) {
+                    // the overall inventory is updated last, and nothing may
+                    // be withdrawn if it does not contain all items
+                    msg->transferred.require_from(inventory);
+
                     // this process is duplicated several times for every
                     // inherited owner<p>, as we are reliant on dynamic type
                     // information
-- 
2.43.0


From 430f1ab028326e2b7e80270660b6acbb667a8a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 26/89] fix: taking property that is already owned adds to the
 inventory

---
 esl/economics/owner.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/esl/economics/owner.hpp b/esl/economics/owner.hpp
index 06602b2..64b68e9 100644
--- a/esl/economics/owner.hpp
+++ b/esl/economics/owner.hpp
@@ -259,9 +259,21 @@ namespace esl::law {
 
         void take(std::shared_ptr<property_t_> property, quantity amount)
         {
-            this->properties.insert(property, amount);
-            esl::law::owner<esl::law::property>::inventory.insert(
-                std::make_pair(property, amount));
+            if(amount.amount == 0) {
+                return;
+            }
+
+            auto &inventory_ = esl::law::owner<esl::law::property>::inventory;
+            if constexpr(std::is_base_of<economics::fungible, property_t_>::value) {
+                this->properties.insert(property, amount);
+                inventory_[property] += amount;
+            } else {
+                if(quantity(1) < amount || inventory_.end() != inventory_.find(property)) {
+                    throw economics::accounting::duplicate_infungible(amount);
+                }
+                this->properties.insert(property);
+                inventory_.insert(std::make_pair(property, amount));
+            }
         }
 
 
-- 
2.43.0


From 840f17f1ab8a399fe15a930ee14e242c1b613ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 27/89] fix: environment.cpp is valid C++

---
 esl/computation/environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/computation/environment.cpp b/esl/computation/environment.cpp
index 1e3f381..6be27b1 100644
--- a/esl/computation/environment.cpp
+++ b/esl/computation/environment.cpp
@@ -233,7 +233,7 @@ namespace esl::computation {
                 std::cout << "\rrun " << step_.lower << "/" << step_.upper << " [";
                 auto progress_ = double(step_.upper - step_.lower) / (step_.upper - simulation_time_start);
                 for(auto i = 0; i < width_; ++i) {
-                    if(i < unsigned int((1.-progress_) * width_)) {
+                    if(i < static_cast<unsigned int>((1.-progress_) * width_)) {
                         std::cout << '|';
                     } else {
                         std::cout << ' ';
-- 
2.43.0


From 4ca0e7a1e048cc8f8f2ba096a9aa8b7cdb2a2408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 28/89] fix: created and removed agents are accounted for
 exactly once

---
 esl/computation/environment.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/esl/computation/environment.cpp b/esl/computation/environment.cpp
index 6be27b1..e65a1cf 100644
--- a/esl/computation/environment.cpp
+++ b/esl/computation/environment.cpp
@@ -59,11 +59,8 @@ namespace esl::computation {
     ///
     size_t environment::activate()
     {
-        size_t result_ = 0;
-        for(const auto &a: activated_) {
-            activate_agent(a);
-            ++result_;
-        }
+        // nothing more needs to be done for agents in the same process
+        size_t result_ = activated_.size();
         activated_.clear();
         return result_;
     }
@@ -73,11 +70,8 @@ namespace esl::computation {
     ///
     size_t environment::deactivate()
     {
-        size_t result_ = 0;
-        for(const auto &a: deactivated_) {
-            deactivate_agent(a);
-            ++result_;
-        }
+        size_t result_ = deactivated_.size();
+        deactivated_.clear();
         return result_;
     }
 
@@ -243,7 +237,11 @@ namespace esl::computation {
             }
 
         } while(step_.lower < simulation.end);
-        
+
+        // account for agents created or removed during the last step
+        activate();
+        deactivate();
+
         std::cout << "\rrun " << step_.lower << "/" << step_.upper << " [";
         for(auto i = 0; i < width_; ++i) {
             std::cout << '|';
-- 
2.43.0


From c72a2d3247403b13200943cccf29cfabb21b3c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 29/89] fix: the model's current time advances with its steps

---
 esl/computation/environment.cpp | 3 ++-
 esl/simulation/model.cpp        | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/esl/computation/environment.cpp b/esl/computation/environment.cpp
index e65a1cf..64adcd2 100644
--- a/esl/computation/environment.cpp
+++ b/esl/computation/environment.cpp
@@ -183,7 +183,7 @@ namespace esl::computation {
     {
         simulation::time_interval step_ = {simulation.time, simulation.end};
         if(simulation.time < simulation.end) {
-            simulation.step(step_);
+            simulation.time = simulation.step(step_);
         }
 
         size_t changes_ = 0;
@@ -237,6 +237,7 @@ namespace esl::computation {
             }
 
         } while(step_.lower < simulation.end);
+        simulation.time = step_.lower;
 
         // account for agents created or removed during the last step
         activate();
diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index e3f7484..051ebd8 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -94,6 +94,7 @@ namespace esl::simulation {
         }
 
         auto timer_start_ = high_resolution_clock::now();
+        time = step.lower;
         environment_.before_step();
 
         //std::cout << "wake_up_times " << wake_up_times << std::endl;
-- 
2.43.0


From b79be80364ec44d3752434e0e5fce1cd5a606375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 30/89] fix: agents with overdue messages are woken up instead
 of stepping forever

---
 esl/simulation/model.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index 051ebd8..c8d971d 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -199,10 +199,9 @@ namespace esl::simulation {
                     auto [ww, _] = wake_up_times.emplace(i, step.lower);
                     w=ww;
                 }
-                // this comparison is strict equality, because an agent
-                // returning a time_point before the current time form act() is
-                // a logical error
-                if(w->second == step.lower){
+                // an agent returning a time_point before the current time from
+                // act() is a logical error, but a message can be overdue
+                if(w->second <= step.lower){
                     //std::cout << "active " << i << a->describe() << std::endl;
                     acting_agents_.push_back(a);
                 }
-- 
2.43.0


From 6842a83fc5bd1ad42933a502a9bfca949d8a8e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 31/89] fix: the wake-up times of removed agents are ignored

---
 esl/simulation/model.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index c8d971d..510ffce 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -71,6 +71,10 @@ namespace esl::simulation {
         //for(auto &[i, a] : agents.local_agents_) {
         //    auto iterator_ = wake_up_times.find(i);
         for(const auto &[i, t] : wake_up_times) {
+            // agents that were removed no longer influence the model time
+            if(agents.local_agents_.end() == agents.local_agents_.find(i)) {
+                continue;
+            }
             if(result_ > t) {
                 blockers_ = {i};  //.clear();
                 result_   = std::min(result_, t);
-- 
2.43.0


From 1d8face07baa8b12f4a0a6c221a073716a157315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 32/89] fix: a message for the future does not postpone the
 first action of a new agent

---
 esl/computation/environment.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esl/computation/environment.cpp b/esl/computation/environment.cpp
index 64adcd2..6340cef 100644
--- a/esl/computation/environment.cpp
+++ b/esl/computation/environment.cpp
@@ -146,7 +146,8 @@ namespace esl::computation {
                 // now that the recipient has a new message, make sure that they wake up on time to do something with it
                 auto recipient_iterator_ = simulation.wake_up_times.find(m->recipient);
                 if(simulation.wake_up_times.end() == recipient_iterator_){
-                    simulation.wake_up_times[m->recipient] = m->received;
+                    // the recipient is new, and has yet to act for the first time
+                    simulation.wake_up_times[m->recipient] = std::min(m->received, simulation.time);
                 }else{
                     (*recipient_iterator_).second = std::min((*recipient_iterator_).second, m->received);
                 }
-- 
2.43.0


From 9ee6bcf6a0d2d2c639d4fc024a6efbdbb806bdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 33/89] fix: errors raised by agents on other threads are
 reported instead of terminating the program

---
 esl/simulation/model.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index 510ffce..a413387 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -25,6 +25,9 @@
 #include <esl/simulation/model.hpp>
 
 #include <chrono>
+#include <exception>
+#include <mutex>
+#include <thread>
 using std::chrono::high_resolution_clock;
 #include <numeric>
 
@@ -219,6 +222,8 @@ namespace esl::simulation {
                     job_(a);
                 }
             }else{
+                // errors are reported as if running on a single thread
+                std::vector<std::exception_ptr> errors_(threads);
                 std::vector<std::thread> threads_;
                 auto iterator_ = acting_agents_.begin();
                 for(const auto& tasks_: quantity(acting_agents_.size()) / threads){
@@ -228,17 +233,27 @@ namespace esl::simulation {
                         std::advance(iterator_, 1);
                     }
 
-                    threads_.emplace_back([&](std::vector<std::shared_ptr<agent>> ts)
+                    threads_.emplace_back([&](std::vector<std::shared_ptr<agent>> ts, std::exception_ptr &error)
                         {
-                            for(const auto& a: ts){
-                                job_(a);
+                            try {
+                                for(const auto& a: ts){
+                                    job_(a);
+                                }
+                            } catch(...) {
+                                error = std::current_exception();
                             }
-                        }, task_split_);
+                        }, task_split_, std::ref(errors_[threads_.size()]));
                 }
 
                 for(auto &t: threads_){
                     t.join();
                 }
+
+                for(const auto &error: errors_){
+                    if(error){
+                        std::rethrow_exception(error);
+                    }
+                }
             }
 
             auto messages_sent_ = environment_.send_messages(*this);
-- 
2.43.0


From 925cb41939576d0cdef85682e3e1a367cc610565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 34/89] fix: agents are woken up for messages pending while
 they act for other reasons

---
 esl/interaction/communicator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esl/interaction/communicator.cpp b/esl/interaction/communicator.cpp
index e1fef9d..2df5c76 100644
--- a/esl/interaction/communicator.cpp
+++ b/esl/interaction/communicator.cpp
@@ -94,9 +94,12 @@ namespace esl::interaction {
                      , std::less<>
                      , boost::fast_pool_allocator<std::pair<const priority_t, message_t>>
                      > priority_;
+        auto first_event_ = step.upper;
+
         for(const auto &[k, m]: inbox) {
             // message will be received in the future
             if(k > step.lower) {
+                first_event_ = std::min(first_event_, k);
                 break;
             }
 
@@ -114,8 +117,6 @@ namespace esl::interaction {
             priority_.insert(std::make_pair(highest_priority, m));
         }
 
-        auto first_event_ = step.upper;
-
         for(auto i = priority_.rbegin(); i != priority_.rend(); ++i) {
             std::vector<message_t> equal_;
             for(auto upper_ = i;
-- 
2.43.0


From e77357ee3ecfc05f925f67727984075819694b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 35/89] fix: in-order scheduling processes messages of equal
 priority in order of delivery

---
 esl/interaction/communicator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/esl/interaction/communicator.cpp b/esl/interaction/communicator.cpp
index 2df5c76..7498249 100644
--- a/esl/interaction/communicator.cpp
+++ b/esl/interaction/communicator.cpp
@@ -126,7 +126,10 @@ namespace esl::interaction {
                 i = upper_;
             }
 
-            if(random == schedule) {
+            if(in_order == schedule) {
+                // messages of equal priority were visited last to first
+                std::reverse(equal_.begin(), equal_.end());
+            } else if(random == schedule) {
                 std::minstd_rand g(seed);
                 std::shuffle(equal_.begin(), equal_.end(), g);
             }
-- 
2.43.0


From dea7e4311bfc0d6b53c5afc00dfe546ac6bb1789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 36/89] fix: the number of threads is the one requested, not
 the verbosity

---
 esl/simulation/parameter/parametrization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/simulation/parameter/parametrization.hpp b/esl/simulation/parameter/parametrization.hpp
index 15658cc..c416354 100644
--- a/esl/simulation/parameter/parametrization.hpp
+++ b/esl/simulation/parameter/parametrization.hpp
@@ -61,7 +61,7 @@ namespace esl::simulation::parameter {
             values["start"]     = std::make_shared<constant<time_point>>(start);
             values["end"]       = std::make_shared<constant<time_point>>(end);
             values["verbosity"] = std::make_shared<constant<std::uint64_t>>(verbosity);
-            values["threads"]   = std::make_shared<constant<std::uint64_t>>(verbosity);
+            values["threads"]   = std::make_shared<constant<std::uint64_t>>(threads);
         }
 
         ///
-- 
2.43.0


From f6470dc2c3966ef62114c23e2e6e8a82de5729b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 37/89] fix: looking up an agent that does not exist does not
 add an empty agent

---
 esl/simulation/agent_collection.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/esl/simulation/agent_collection.cpp b/esl/simulation/agent_collection.cpp
index a3b0085..2eed751 100644
--- a/esl/simulation/agent_collection.cpp
+++ b/esl/simulation/agent_collection.cpp
@@ -54,6 +54,10 @@ namespace esl::simulation {
     std::shared_ptr<agent>
         agent_collection::operator[](const identity<agent> &a)
     {
-        return local_agents_[a];
+        auto iterator_ = local_agents_.find(a);
+        if(local_agents_.end() == iterator_) {
+            return nullptr;
+        }
+        return iterator_->second;
     }
 }
-- 
2.43.0


From 9ee3cc58b9d1ff0c60a3113ef6ac1fd90a402a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 38/89] fix: a step ends no later than its time interval when
 no agents act

---
 esl/simulation/model.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index a413387..c197904 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -117,7 +117,7 @@ namespace esl::simulation {
 
             // the next event is the first time one of the agents wants to act
             // in the future
-            first_event_   = determine_next_event();
+            first_event_   = std::min(step.upper, determine_next_event());
 
             auto job_ = [&](std::shared_ptr<agent> a){
                 //LOG(trace) << "act " << a->identifier << std::endl;
@@ -161,7 +161,7 @@ namespace esl::simulation {
                     //std::cout << a->identifier << " wakes up next at " << first_event_ << std::endl;
                     wake_up_times[a->identifier] = wake_up_;
 
-                    first_event_   = determine_next_event();
+                    first_event_   = std::min(step.upper, determine_next_event());
                 }
 
                 //} catch(const std::runtime_error &e) {
@@ -258,7 +258,7 @@ namespace esl::simulation {
 
             auto messages_sent_ = environment_.send_messages(*this);
             if(0 < messages_sent_){
-                first_event_   = determine_next_event();
+                first_event_   = std::min(step.upper, determine_next_event());
             }
 
             messages_sent += messages_sent_;
-- 
2.43.0


From bf9aa877855a4ab544f0a467e8128fda0d3883fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 39/89] fix: a thread pool with zero threads requested selects
 at least one

---
 esl/computation/thread_pool.hpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/esl/computation/thread_pool.hpp b/esl/computation/thread_pool.hpp
index c0a4540..32af65e 100644
--- a/esl/computation/thread_pool.hpp
+++ b/esl/computation/thread_pool.hpp
@@ -55,6 +55,21 @@ namespace esl::computation {
         ///
         std::atomic<unsigned int> index_ = 0;
 
+        ///
+        /// \brief  The number of threads to use for the number requested
+        ///
+        static unsigned int determine_threads(unsigned int requested)
+        {
+            if (0 >= requested) {
+                requested = std::thread::hardware_concurrency();
+                // hardware_concurrency is not guaranteed to work well on any OS
+                if (0 >= requested) {
+                    requested = 1;
+                }
+            }
+            return requested;
+        }
+
     public:
         ///
         /// \brief  The workload per thread
@@ -64,17 +79,9 @@ namespace esl::computation {
         const unsigned int threads;
 
         explicit thread_pool(unsigned int threads = std::thread::hardware_concurrency())
-        : queues_(threads)
-        , threads(threads)
+        : queues_(determine_threads(threads))
+        , threads(queues_.size())
         {
-            if (0 >= threads) {
-                threads = std::thread::hardware_concurrency();
-                // hardware_concurrency is not guaranteed to work well on any OS
-                if (0 >= threads) {
-                    threads = 1;
-                }
-            }
-
             auto worker_ = [this](auto i) {
                 while (true) {
                     std::function<void(void)> function_;
@@ -92,7 +99,7 @@ namespace esl::computation {
                 }
             };
 
-            for (unsigned int i = 0; i < threads; ++i) {
+            for (unsigned int i = 0; i < this->threads; ++i) {
                 threads_.emplace_back(worker_, i);
             }
         }
-- 
2.43.0


From 3a2676b77779ce95782fb05c0030012a7542a856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 40/89] fix: dividends are per share, exact, and shared among
 the eligible shares only

---
 esl/economics/company.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/esl/economics/company.cpp b/esl/economics/company.cpp
index 6206c0f..66ea67e 100644
--- a/esl/economics/company.cpp
+++ b/esl/economics/company.cpp
@@ -67,12 +67,25 @@ namespace esl::economics {
 
         std::map<finance::share_class, std::tuple<std::uint64_t, price>> result_;
 
-        double fraction_ = double(unappropriated_profit) / total_shares();
+        // only shares that are eligible for dividend take part
+        std::uint64_t eligible_ = 0;
+        for(const auto &[s, q]: shares_outstanding) {
+            if(s.dividend) {
+                eligible_ += q;
+            }
+        }
+
+        if(0 == eligible_) {
+            return {};
+        }
+
+        // the profit is positive, rounding is in favor of the company
+        const price per_share_(std::int64_t(std::uint64_t(unappropriated_profit.value) / eligible_)
+                              , unappropriated_profit.valuation);
 
         for(const auto &[s, q]: shares_outstanding) {
             if(s.dividend) {
-                result_.insert(make_pair(
-                    s, std::make_tuple(q,cash(primary_jurisdiction.tender).price(fraction_ * q))));
+                result_.insert(make_pair(s, std::make_tuple(q, per_share_)));
             }
         }
 
-- 
2.43.0


From ab3c56eeab12a61dd7f577fc6fcf99e11ef0dc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 41/89] fix: a company with an announced dividend waits for the
 payable date

---
 esl/economics/company.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/company.cpp b/esl/economics/company.cpp
index 66ea67e..b756c26 100644
--- a/esl/economics/company.cpp
+++ b/esl/economics/company.cpp
@@ -190,7 +190,7 @@ namespace esl::economics {
             }
         } else {
             next_event_ = std::min<simulation::time_point>(
-                policy_.announcement_date, next_event_);
+                policy_.payable_date, next_event_);
         }
         return next_event_;
     }
-- 
2.43.0


From 659a3be10881f1469b8d9feffe8b26c850e544ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 42/89] fix: a dividend announced at time zero is announced

---
 esl/economics/company.cpp | 4 ++--
 esl/economics/company.hpp | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/esl/economics/company.cpp b/esl/economics/company.cpp
index b756c26..d1bd7e2 100644
--- a/esl/economics/company.cpp
+++ b/esl/economics/company.cpp
@@ -107,8 +107,8 @@ namespace esl::economics {
     , shareholder(i)
     , identifiable_as<company>()
     , balance_sheet(*this)
-    , last_announced_(0)
-    , last_payment_(0)
+    , last_announced_()
+    , last_payment_()
     {}
 
 
diff --git a/esl/economics/company.hpp b/esl/economics/company.hpp
index d179887..16085eb 100644
--- a/esl/economics/company.hpp
+++ b/esl/economics/company.hpp
@@ -28,6 +28,7 @@
 #include <iostream>
 #include <map>
 #include <numeric>
+#include <optional>
 #include <vector>
 
 #include <boost/serialization/serialization.hpp>
@@ -98,9 +99,9 @@ namespace esl::economics {
         compute_dividend_per_share(const price &unappropriated_profit);
 
     protected:
-        simulation::time_point last_announced_;
+        std::optional<simulation::time_point> last_announced_;
 
-        simulation::time_point last_payment_;
+        std::optional<simulation::time_point> last_payment_;
 
         friend class boost::serialization::access;
 
-- 
2.43.0


From cdb8d9bbf332d1a0e4a5fb2b98ecbea8ddff844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 43/89] fix: stock and lent securities with a negative price
 have a value with the right sign

---
 esl/economics/accounting/standard.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/esl/economics/accounting/standard.hpp b/esl/economics/accounting/standard.hpp
index 1acc00c..b51593c 100644
--- a/esl/economics/accounting/standard.hpp
+++ b/esl/economics/accounting/standard.hpp
@@ -99,8 +99,9 @@ namespace esl::economics::accounting {
                 throw std::logic_error("no market price");
             }
 
-            int64_t value_ = (std::get<price>(i->second.type).value * q.amount)
-                / (i->second.lot);
+            // signed, because prices can be negative
+            int64_t value_ = (std::get<price>(i->second.type).value * int64_t(q.amount))
+                / int64_t(i->second.lot);
 
             return price(value_, std::get<price>(i->second.type).valuation);
         }
@@ -113,16 +114,15 @@ namespace esl::economics::accounting {
 
         [[nodiscard]] price value(const finance::securities_lending_contract &c, const quantity &q) const
         {
-            price result_ = price::approximate(0.00, reporting_currency);
             auto i = mark_to_market.find(c.security);
             if(mark_to_market.end() == i){
                 LOG(errorlog) << "no market price for stock " << c.security << std::endl;
                 throw std::logic_error("no market price");
             }
-            // TODO: use foreign_currencies if valuation is in different currency
-            int64_t value_ = (std::get<price>(i->second.type).value * c.size.amount * q.amount)
-                             / (i->second.lot);
-            result_.value -= value_;
+            // signed, because prices can be negative
+            int64_t value_ = (std::get<price>(i->second.type).value * int64_t(c.size.amount * q.amount))
+                             / int64_t(i->second.lot);
+            price result_(-value_, reporting_currency);
             //LOG(trace) << "value of " << q << " short contracts = " << result_ << std::endl;
             return result_;
         }
-- 
2.43.0


From cd8f2660ad670daafbdad562925c26b0d0513b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 44/89] fix: converted cash is in the reporting currency, lent
 securities in that of their quote

---
 esl/economics/accounting/standard.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esl/economics/accounting/standard.hpp b/esl/economics/accounting/standard.hpp
index b51593c..9cc12c1 100644
--- a/esl/economics/accounting/standard.hpp
+++ b/esl/economics/accounting/standard.hpp
@@ -83,7 +83,7 @@ namespace esl::economics::accounting {
                 LOG(errorlog) << message_.str() << std::endl;
                 throw std::domain_error(message_.str().c_str());
             }
-            return i->second * foreign_;
+            return price((i->second * foreign_).value, reporting_currency);
         }
 
         [[nodiscard]] price value(const esl::economics::cash &c, const quantity &q) const
@@ -122,7 +122,8 @@ namespace esl::economics::accounting {
             // signed, because prices can be negative
             int64_t value_ = (std::get<price>(i->second.type).value * int64_t(c.size.amount * q.amount))
                              / int64_t(i->second.lot);
-            price result_(-value_, reporting_currency);
+            // as for stock, the value is in the currency of the quote
+            price result_(-value_, std::get<price>(i->second.type).valuation);
             //LOG(trace) << "value of " << q << " short contracts = " << result_ << std::endl;
             return result_;
         }
-- 
2.43.0


From 22e1c33eccf0099f17290d73f7713a728ee371fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 45/89] fix: a shareholder records the currency of a new price
 as well

---
 esl/economics/finance/shareholder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/finance/shareholder.cpp b/esl/economics/finance/shareholder.cpp
index 89168ad..9934225 100644
--- a/esl/economics/finance/shareholder.cpp
+++ b/esl/economics/finance/shareholder.cpp
@@ -73,7 +73,7 @@ namespace esl::economics::finance {
                     if(prices.end() == i){
                         prices.emplace(k, std::get<price>(v.type));
                     }else{
-                        i->second.value = std::get<price>(v.type).value;
+                        i->second = std::get<price>(v.type);
                     }
                 }
                 return step.upper;
-- 
2.43.0


From de5fb2b35799ed6d69c48308adb247bd3804b793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 46/89] fix: every participant that logs on to an exchange has
 its position recorded

---
 esl/economics/markets/centralized_exchange.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index cce9d96..5d64f65 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -224,14 +224,12 @@ namespace esl::economics::markets {
         {
             (void) s;
             for(const auto &t: traded_properties){
-                boost::container::flat_map<identity<agent>, position_report> individual_positions_;
                 position_report position_;
 
                 if(m->supply.find(t) != m->supply.end()){
                     position_.supply = m->supply.find(t)->second;
                 }
-                individual_positions_.emplace(m->sender, position_);
-                positions.emplace(t, individual_positions_);
+                positions[t].insert_or_assign(m->sender, position_);
             }
             return ti.upper;
         }
-- 
2.43.0


From 814af246ddea24fb9b4f57132bab5a8d356d675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 47/89] fix: the first subscription to market data is accepted,
 cancelling none has no effect

---
 esl/economics/markets/centralized_exchange.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index 5d64f65..c90f6c2 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -488,14 +488,8 @@ namespace esl::economics::markets {
                             if(market_data_subscriptions.end() == instrument_) {
                                 continue;
                             }
-                            auto subscription_ = market_data_subscriptions[i].find(m->sender);
-                            market_data_subscriptions[i].erase(subscription_);
+                            instrument_->second.erase(m->sender);
                         }else if(market_data_request_message::stream == m->type) {
-                            auto instrument_ = market_data_subscriptions.find(i);
-                            if(market_data_subscriptions.end() == instrument_) {
-                                continue;
-                            }
-                        
                             auto subscription_ = market_data_subscriptions[i].find(m->sender);
 
                               centralized_exchange::data_subscription s;
-- 
2.43.0


From a7fd8e7307cc63f5202267c3ced4a0d16c34526d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:42 +0000
Subject: [PATCH 48/89] fix: an execution report takes as long as it takes to
 reach its recipient

---
 esl/economics/markets/centralized_exchange.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index c90f6c2..14409b3 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -363,7 +363,7 @@ namespace esl::economics::markets {
                 {
                     simulation::time_point arrival_ = ti.lower;
                     if(communication_model) {
-                        arrival_ += communication_model->sample(identifier, m->sender, seed);
+                        arrival_ += communication_model->sample(identifier, r.owner, seed);
                     }
                     auto response_ = this->template create_message<execution_report_message>(r.owner, arrival_);
                     response_->sender = (*this);
-- 
2.43.0


From a5ba2b93d303e6dc0f1c0a3f8c4ffe7863120ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:42 +0000
Subject: [PATCH 49/89] fix: market data lists every trade once, in one update
 per order

---
 .../markets/centralized_exchange.hpp          | 87 ++++++++++---------
 1 file changed, 48 insertions(+), 39 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index 14409b3..70cc6e2 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -274,6 +274,29 @@ namespace esl::economics::markets {
             return ti.upper;
         }
 
+        ///
+        /// \brief  Sends market data to one subscriber
+        ///
+        void send_market_data( const identity<agent> &subscriber
+                             , const ticker &symbol
+                             , const market_data &data
+                             , simulation::time_interval ti
+                             , std::seed_seq &seed
+                             )
+        {
+            simulation::time_point arrival_ = ti.lower;
+            if(communication_model) {
+                arrival_ += communication_model->sample(identifier, subscriber, seed);
+            }
+            auto market_data_ = this->template create_message<market_data_message>(subscriber, arrival_);
+            market_data_->sender = (*this);
+            market_data_->sent   = ti.lower;
+            market_data_->symbol = symbol;
+            market_data_->ask    = data.ask;
+            market_data_->bid    = data.bid;
+            market_data_->trades = data.trades;
+        }
+
         ///
         /// \brief  Handles a single order, and sends the reports that it generates.
         ///
@@ -371,51 +394,37 @@ namespace esl::economics::markets {
                     response_->sent   = ti.lower;
                     response_->report = r;
                 }
-                // if no one wants market data on this symbol, skip the next steps.
-                if(market_data_subscriptions.end() == market_data_subscriptions.find(m->order_details.symbol)) {
-                    continue;
+                // each trade is listed once, although there are two reports
+                if(r.state == execution_report::state_t::match && r.side == m->order_details.side) {
+                    data_.trades.push_back({r.limit, r.quantity});
                 }
-                // if the order resulted in a match, update market data feed (once, as there will be two reports)
-                auto trade_ = (r.state == execution_report::state_t::match);
-                // or if the bed bid or ask improved
-                auto best_bid_ask_ = (ask_ != b.ask() || bid_ != b.bid());
-                if((trade_ && r.owner == m->sender) || best_bid_ask_){
-                    for(auto &[subscriber_, details_]: market_data_subscriptions[m->order_details.symbol]) {
-
-                        if(details_.start + details_.periodicity > ti.lower) {
-                            continue;
-                        }
-
-                        // change the start of the next data subscription fulfillment, so that we dont overload them
-                        // 
-                        details_.start = ti.lower;
-
+            }
+            b.reports.clear();
 
-                        simulation::time_point arrival_ = ti.lower;
-                        if(communication_model) {
+            // if the order resulted in a match, or if the best bid or ask changed, update market data feed (once)
+            auto subscribers_ = market_data_subscriptions.find(m->order_details.symbol);
+            auto best_bid_ask_ = (ask_ != b.ask() || bid_ != b.bid());
+            if(market_data_subscriptions.end() == subscribers_ || (data_.trades.empty() && !best_bid_ask_)) {
+                return ti.upper;
+            }
 
-                            arrival_ += communication_model->sample(
-                                identifier, subscriber_, seed);
-                        }
-                        auto market_data_ = this->template create_message<market_data_message>(subscriber_, arrival_);
-                        market_data_->sender = (*this);
-                        market_data_->sent   = ti.lower;
-                        market_data_->symbol = m->order_details.symbol;
+            if(b.ask().has_value()) {
+                data_.ask.push_back({b.ask().value(), 1});
+            }
+            if(b.bid().has_value()) {
+                data_.bid.push_back({b.bid().value(), 1});
+            }
 
-                        if(trade_) {
-                            market_data_->trades.push_back({r.limit, r.quantity});
-                        }
-                        
-                        if(b.ask().has_value()) {
-                            market_data_->ask.push_back({b.ask().value(), 1});
-                        }
-                        if(b.bid().has_value()) {
-                            market_data_->bid.push_back({b.bid().value(), 1});
-                        }
-                    }
+            for(auto &[subscriber_, details_]: subscribers_->second) {
+                if(details_.start + details_.periodicity > ti.lower) {
+                    continue;
                 }
+
+                // change the start of the next data subscription fulfillment, so that we dont overload them
+                //
+                details_.start = ti.lower;
+                send_market_data(subscriber_, m->order_details.symbol, data_, ti, seed);
             }
-            b.reports.clear();
             return ti.upper;
         }
 
-- 
2.43.0


From c218eaedfe135ae46e041f7c1e082977db93944e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 50/89] fix: the report of a cancellation is sent when the
 order is cancelled

---
 .../markets/centralized_exchange.hpp          | 39 ++++++++++++++-----
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index 70cc6e2..aeb8181 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -297,6 +297,26 @@ namespace esl::economics::markets {
             market_data_->trades = data.trades;
         }
 
+        ///
+        /// \brief  Sends an execution report to the owner of the order it concerns
+        ///
+        void send_report( const execution_report &r
+                        , const limit_order &order
+                        , simulation::time_interval ti
+                        , std::seed_seq &seed
+                        )
+        {
+            simulation::time_point arrival_ = ti.lower;
+            if(communication_model) {
+                arrival_ += communication_model->sample(identifier, r.owner, seed);
+            }
+            auto response_ = this->template create_message<execution_report_message>(r.owner, arrival_);
+            response_->sender = (*this);
+            response_->order  = order;
+            response_->sent   = ti.lower;
+            response_->report = r;
+        }
+
         ///
         /// \brief  Handles a single order, and sends the reports that it generates.
         ///
@@ -384,15 +404,7 @@ namespace esl::economics::markets {
 
                 // notify the participants involved in the trade
                 {
-                    simulation::time_point arrival_ = ti.lower;
-                    if(communication_model) {
-                        arrival_ += communication_model->sample(identifier, r.owner, seed);
-                    }
-                    auto response_ = this->template create_message<execution_report_message>(r.owner, arrival_);
-                    response_->sender = (*this);
-                    response_->order  = m->order_details;
-                    response_->sent   = ti.lower;
-                    response_->report = r;
+                    send_report(r, m->order_details, ti, seed);
                 }
                 // each trade is listed once, although there are two reports
                 if(r.state == execution_report::state_t::match && r.side == m->order_details.side) {
@@ -544,7 +556,14 @@ namespace esl::economics::markets {
                                       , simulation::time_interval step
                                       , std::seed_seq &s) 
                                     { 
-                                        cancel(m->symbol, m->order); 
+                                        cancel(m->symbol, m->order);
+                                        auto i = books.find(m->symbol);
+                                        if(books.end() != i) {
+                                            for(const auto &r: i->second->reports) {
+                                                send_report(r, limit_order(m->symbol, r.owner, r.side, r.limit, r.quantity), step, s);
+                                            }
+                                            i->second->reports.clear();
+                                        }
                                         return step.upper;
                                     }
                                  , "cancel existing order");
-- 
2.43.0


From a3cd7358c19ee9ab06d42f81613947ab3b4bae15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:30 +0000
Subject: [PATCH 51/89] fix: a snapshot of market data is sent, and does not
 become a subscription

---
 .../markets/centralized_exchange.hpp          | 36 ++++++++-----------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index aeb8181..8a5c59c 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -479,31 +479,23 @@ namespace esl::economics::markets {
                                    , [&]( std::shared_ptr<market_data_request_message> m
                                         , simulation::time_interval ti
                                         , std::seed_seq &s){
-                    (void)s;
-
-
-
                     for(const auto &i: m->instruments){
                         if(market_data_request_message::snapshot == m->type){
-                            
-                            // periodicity is set to max
-                      
-                            auto subscription_ =
-                                market_data_subscriptions[i].find(m->sender);
-
-                            centralized_exchange::data_subscription s;
-                            s.depth       = m->depth;
-                            s.start       = ti.lower;
-                            s.periodicity = std::numeric_limits<simulation::time_point>::max();
-
-                            if(market_data_subscriptions[i].end()
-                               == subscription_) {
-                                market_data_subscriptions[i].insert(
-                                    {m->sender, s});
-                            } else {
-                                subscription_->second = s;
+                            // one message that shows the current best bid and ask
+                            auto book_ = books.find(i);
+                            if(books.end() == book_) {
+                                continue;
+                            }
+                            market_data data_;
+                            const auto ask_ = book_->second->ask();
+                            const auto bid_ = book_->second->bid();
+                            if(ask_.has_value()) {
+                                data_.ask.push_back({ask_.value(), 1});
+                            }
+                            if(bid_.has_value()) {
+                                data_.bid.push_back({bid_.value(), 1});
                             }
-                               
+                            send_market_data(m->sender, i, data_, ti, s);
                         }else if(market_data_request_message::cancel == m->type) {
                             auto instrument_ = market_data_subscriptions.find(i);
                             if(market_data_subscriptions.end() == instrument_) {
-- 
2.43.0


From d21a4f544999ecd71b44907fd474d0756b51502e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:40 +0000
Subject: [PATCH 52/89] fix: rounding away from zero compiles, and leaves whole
 numbers as they are

---
 esl/algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/algorithms.hpp b/esl/algorithms.hpp
index 9f43282..ee44d51 100644
--- a/esl/algorithms.hpp
+++ b/esl/algorithms.hpp
@@ -158,7 +158,7 @@ namespace esl {
         template<typename floating_t_, typename integer_t_ = int64_t>
         integer_t_ integer_away_from_zero(floating_t_ value)
         {
-            return integer_t_(std::trunc(value) + sign(value));
+            return integer_t_(value < 0 ? std::floor(value) : std::ceil(value));
         }
     }  // namespace rounding
 
-- 
2.43.0


From 1aa54607f2382feaab6d9a72a9b946cc18dd6fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:12 +0000
Subject: [PATCH 53/89] fix: the growth rate is per period, of which there are
 one less than values

---
 esl/algorithms.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/esl/algorithms.hpp b/esl/algorithms.hpp
index ee44d51..4bb7f35 100644
--- a/esl/algorithms.hpp
+++ b/esl/algorithms.hpp
@@ -184,14 +184,19 @@ namespace esl {
     {
         auto result_log_ =
             typename std::iterator_traits<iterator_t_>::value_type(0);
-        size_t elements_ = 1;
+        assert(begin != end);
+        size_t periods_ = 0;
         auto next_ = std::next(begin);
 
-        for(begin; next_ != end; ++begin, ++next_, ++elements_) {
+        for(; next_ != end; ++begin, ++next_, ++periods_) {
             result_log_ += std::log(*next_) - std::log(*begin);
         }
 
-        return std::exp(result_log_ / elements_) - 1;
+        // a single value does not grow
+        if(0 == periods_) {
+            return 0;
+        }
+        return std::exp(result_log_ / periods_) - 1;
     }
 
     template<typename container_t_>
-- 
2.43.0


From 4a4504d5946bb5af621d3c2788199e3208da0dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:29 +0000
Subject: [PATCH 54/89] fix: means and growth rates of whole numbers are
 computed as real numbers

---
 esl/algorithms.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/esl/algorithms.hpp b/esl/algorithms.hpp
index 4bb7f35..bd1e798 100644
--- a/esl/algorithms.hpp
+++ b/esl/algorithms.hpp
@@ -164,12 +164,10 @@ namespace esl {
 
     template<typename iterator_t_>
     auto geometric_mean(iterator_t_ begin, iterator_t_ end)
-        -> decltype(typename std::iterator_traits<iterator_t_>::value_type()
-                    + 0)
+        -> decltype(std::log(*begin))
     {
         assert(begin != end);
-        auto result_log_ =
-            typename std::iterator_traits<iterator_t_>::value_type(0);
+        decltype(std::log(*begin)) result_log_ = 0;
         size_t elements_ = 0;
         for(begin; begin != end; ++begin, ++elements_) {
             result_log_ += std::log(*begin);
@@ -179,11 +177,9 @@ namespace esl {
 
     template<typename iterator_t_>
     auto growth_rate(iterator_t_ begin, iterator_t_ end)
-    -> decltype(typename std::iterator_traits<iterator_t_>::value_type()
-                + 0)
+    -> decltype(std::log(*begin))
     {
-        auto result_log_ =
-            typename std::iterator_traits<iterator_t_>::value_type(0);
+        decltype(std::log(*begin)) result_log_ = 0;
         assert(begin != end);
         size_t periods_ = 0;
         auto next_ = std::next(begin);
-- 
2.43.0


From 2dc5bf34b356a647e2bc4641eccdaa49868bcac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:09 +0000
Subject: [PATCH 55/89] fix: allocating over fractions gives whole numbers that
 add up to the sum

---
 esl/algorithms.hpp | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/esl/algorithms.hpp b/esl/algorithms.hpp
index bd1e798..30f1ca4 100644
--- a/esl/algorithms.hpp
+++ b/esl/algorithms.hpp
@@ -201,43 +201,44 @@ namespace esl {
         return geometric_mean(std::cbegin(c), std::cend(c));
     }
 
+    ///
+    /// \brief  Allocates a whole number over fractions, by the method of the
+    ///         largest remainder
+    ///
+    /// \param fractions    Non-negative weights, in proportion to which `sum`
+    ///                     is allocated
+    /// \param sum          The whole number to allocate
+    /// \return             Whole numbers that add up to `sum`
     template<typename floating_t_ = double, typename integer_t_ = size_t>
     std::vector<int>
     allocate_fractions(const std::vector<floating_t_> &fractions, int sum)
     {
-        floating_t_ sum_ = 0;
-        int near_        = 0;
+        const auto total_ = std::accumulate(fractions.begin(), fractions.end(), floating_t_(0));
+        int allocated_ = 0;
         std::vector<int> result_;
+        std::vector<floating_t_> remainders_;
         for(const auto &f : fractions) {
-            sum_ += f;
-            near_ += round(f);
-            result_.push_back(round(abs(f)));
-        }
-
-        int target_ = round(sum_);
-        if(near_ == target_) {
-            return result_;
+            const auto share_ = total_ > 0 ? f / total_ * sum : floating_t_(0);
+            result_.push_back(int(std::floor(share_)));
+            remainders_.push_back(share_ - std::floor(share_));
+            allocated_ += result_.back();
         }
 
         std::vector<size_t> indices_(fractions.size());
         std::iota(indices_.begin(), indices_.end(), 0);
-        sort(indices_.begin(),
-             indices_.end(),
-             [&fractions](size_t i1, size_t i2) {
-                 return (fractions[i1] - std::nearbyint(fractions[i1]))
-                        > (fractions[i2] - std::nearbyint(fractions[i2]));
-             });
-
-        for(size_t i = 0; i < (target_ - near_); ++i) {
+        std::stable_sort(indices_.begin(),
+                         indices_.end(),
+                         [&remainders_](size_t i1, size_t i2) {
+                             return remainders_[i1] > remainders_[i2];
+                         });
+
+        for(size_t i = 0; allocated_ < sum && i < indices_.size(); ++i, ++allocated_) {
             ++result_[indices_[i]];
         }
 
         return result_;
     }
 
-
-
-
     template <typename element_t_,
             typename iterator_t_ = decltype(std::begin(std::declval<element_t_>())),
             typename = decltype(std::end(std::declval<element_t_>()))>
-- 
2.43.0


From 9acc57f8a8eded1ed7e06aa75b17520bcc02c300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:39 +0000
Subject: [PATCH 56/89] fix: barycentric samples cover the simplex, including
 all of its corners

---
 esl/algorithms.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/esl/algorithms.hpp b/esl/algorithms.hpp
index 30f1ca4..5250787 100644
--- a/esl/algorithms.hpp
+++ b/esl/algorithms.hpp
@@ -292,16 +292,14 @@ namespace esl {
             return  {{remainder}};
         }
 
-        std::vector<std::vector<double>> result_;
-        for(int n = 0; n < divisions; ++n){
-            auto fraction_ = (double(n)+0.0) / (divisions);
-            if(fraction_ > remainder){
+        std::vector<std::vector<coordinate_t_>> result_;
+        for(size_t n = 0; n <= divisions; ++n){
+            auto fraction_ = coordinate_t_(n) / divisions;
+            // the remainder is a sum of fractions, and subject to rounding
+            if(fraction_ > remainder + coordinate_t_(1e-6) / divisions){
                 break;
             }
-            auto next_remainder_ = remainder - fraction_;
-            if(next_remainder_ <= 0.){
-                //continue;
-            }
+            auto next_remainder_ = std::max<coordinate_t_>(0, remainder - fraction_);
             auto tails_ = sample_barycentric(dimensions - 1, divisions, next_remainder_);
             for(auto t: tails_){
                 t.push_back(fraction_);
-- 
2.43.0


From 125f2d3e77a503c67d4e8bfc97ec51d8aef6322a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 57/89] fix: quotes of a risk neutral market maker are finite

---
 esl/economics/markets/order_book/avellaneda_stoikov.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/order_book/avellaneda_stoikov.hpp b/esl/economics/markets/order_book/avellaneda_stoikov.hpp
index 30758eb..2d91224 100644
--- a/esl/economics/markets/order_book/avellaneda_stoikov.hpp
+++ b/esl/economics/markets/order_book/avellaneda_stoikov.hpp
@@ -40,6 +40,8 @@
 
 #include <esl/economics/price.hpp>
 
+#include <cassert>
+#include <cmath>
 #include <utility>
 #include <esl/quantity.hpp>
 
@@ -66,7 +68,9 @@ namespace esl::economics::markets::order_book{
         assert(0 <= theta && theta <= 1.0);
         assert(sigma > 0.);
         double reservation_ = double(mid) - (double(n_long) - double(n_short)) * gamma * sigma*sigma * (1. - theta);
-        double spread_ = gamma * (sigma * sigma) * (1. - theta) + 2./gamma * std::log(1+gamma/k);
+        // in the limit of risk neutrality, only the arrival of orders matters
+        double spread_ = gamma * (sigma * sigma) * (1. - theta)
+                       + (gamma > 0. ? 2./gamma * std::log1p(gamma/k) : 2./k);
         auto bid_ = static_cast<std::int64_t>(std::floor( (reservation_ - spread_/2) * mid.valuation.denominator));
         auto ask_ = static_cast<std::int64_t>(std::ceil( (reservation_ + spread_/2) * mid.valuation.denominator));
 
-- 
2.43.0


From e4ae42b9451d85b3317a47502e87d3a06da25ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:52 +0000
Subject: [PATCH 58/89] fix: uniform random samples of parameters compile, and
 stay within their range

---
 esl/simulation/parameter/sampler.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/esl/simulation/parameter/sampler.hpp b/esl/simulation/parameter/sampler.hpp
index 45d2682..f5d672d 100644
--- a/esl/simulation/parameter/sampler.hpp
+++ b/esl/simulation/parameter/sampler.hpp
@@ -26,7 +26,16 @@
 #define ESL_SAMPLER_HPP
 
 #include <vector>
+#include <algorithm>
+#include <cassert>
+#include <cmath>
+#include <functional>
+#include <limits>
+#include <map>
+#include <memory>
 #include <random>
+#include <tuple>
+#include <unordered_map>
 
 #include <esl/exception.hpp>
 #include <esl/simulation/parameter/parameter.hpp>
@@ -73,9 +82,10 @@ namespace esl::simulation::parameter {
                 std::map<std::shared_ptr<parameter::interval<number_t_>>,
                          number_t_> sample_;
                 for(const auto &p: parameters) {
-                    sample_[p] = distributions_[p].get()(generator_);
+                    // rounding may lead to the bound that was moved up
+                    sample_[p] = std::min(p->upper, distributions_[p](generator_));
                 }
-                result_.template emplace(sample_);
+                result_.emplace_back(sample_);
             }
 
             return result_;
-- 
2.43.0


From 483ad866daac2b275967425729c8221976165515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:03 +0000
Subject: [PATCH 59/89] fix: a single sample of a parameter is its lower bound,
 and not undefined

---
 esl/simulation/parameter/sampler.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esl/simulation/parameter/sampler.hpp b/esl/simulation/parameter/sampler.hpp
index f5d672d..e81e422 100644
--- a/esl/simulation/parameter/sampler.hpp
+++ b/esl/simulation/parameter/sampler.hpp
@@ -111,7 +111,7 @@ namespace esl::simulation::parameter {
                 values_[p].reserve(d);
                 indices_.emplace(p, 0);
                 for(unsigned int s = 0; s < d; ++s){
-                    auto v = p->lower + (p->upper - p->lower) / (d - 1) * s;
+                    auto v = p->lower + (p->upper - p->lower) / std::max(d - 1, 1u) * s;
                     values_[p].emplace_back(v);
                 }
             }
@@ -156,7 +156,7 @@ namespace esl::simulation::parameter {
                 values_[p].reserve(density);
                 indices_[p].reserve(density);
                 for(unsigned int s = 0; s < density; ++s){
-                    auto v = p->lower + (p->upper - p->lower) / (density - 1) * s;
+                    auto v = p->lower + (p->upper - p->lower) / std::max(density - 1, 1u) * s;
                     auto i = values_[p]. emplace_back(v);
                     indices_[p]. emplace_back(s);
                 }
@@ -199,7 +199,7 @@ namespace esl::simulation::parameter {
                 values_[p].reserve(density);
                 indices_[p].reserve(density);
                 for(unsigned int s = 0; s < density; ++s){
-                    auto v = p->lower + (p->upper - p->lower) / (density - 1) * s;
+                    auto v = p->lower + (p->upper - p->lower) / std::max(density - 1, 1u) * s;
                     auto i = values_[p].template emplace_back(v);
                     indices_[p].template emplace_back(s);
                 }
-- 
2.43.0


From 31a4ef90932293a4bd7114c8d52b048eeafe39ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:20 +0000
Subject: [PATCH 60/89] fix: equally spaced samples of a parameter include the
 end of its range

---
 esl/simulation/parameter/sampler.hpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/esl/simulation/parameter/sampler.hpp b/esl/simulation/parameter/sampler.hpp
index e81e422..384e227 100644
--- a/esl/simulation/parameter/sampler.hpp
+++ b/esl/simulation/parameter/sampler.hpp
@@ -45,6 +45,21 @@ namespace esl::simulation::parameter {
 
     namespace sampler {
 
+        ///
+        /// \brief  One of `density` equally spaced values, which include both
+        ///         ends of the interval exactly
+        ///
+        template<typename number_t_>
+        number_t_ equally_spaced( const parameter::interval<number_t_> &p
+                                , unsigned int index
+                                , unsigned int density)
+        {
+            if(0 < index && index + 1 == density) {
+                return p.upper;
+            }
+            return p.lower + (p.upper - p.lower) / std::max(density - 1, 1u) * index;
+        }
+
         ///
         /// \brief  Samples the parameter space in a uniformly random manner
         ///         all values are drawn independently from the provided intervals
@@ -111,7 +126,7 @@ namespace esl::simulation::parameter {
                 values_[p].reserve(d);
                 indices_.emplace(p, 0);
                 for(unsigned int s = 0; s < d; ++s){
-                    auto v = p->lower + (p->upper - p->lower) / std::max(d - 1, 1u) * s;
+                    auto v = equally_spaced(*p, s, d);
                     values_[p].emplace_back(v);
                 }
             }
@@ -156,7 +171,7 @@ namespace esl::simulation::parameter {
                 values_[p].reserve(density);
                 indices_[p].reserve(density);
                 for(unsigned int s = 0; s < density; ++s){
-                    auto v = p->lower + (p->upper - p->lower) / std::max(density - 1, 1u) * s;
+                    auto v = equally_spaced(*p, s, density);
                     auto i = values_[p]. emplace_back(v);
                     indices_[p]. emplace_back(s);
                 }
@@ -199,7 +214,7 @@ namespace esl::simulation::parameter {
                 values_[p].reserve(density);
                 indices_[p].reserve(density);
                 for(unsigned int s = 0; s < density; ++s){
-                    auto v = p->lower + (p->upper - p->lower) / std::max(density - 1, 1u) * s;
+                    auto v = equally_spaced(*p, s, density);
                     auto i = values_[p].template emplace_back(v);
                     indices_[p].template emplace_back(s);
                 }
-- 
2.43.0


From 015573c7e272f46473ecfc8963021169ae2c0f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:40 +0000
Subject: [PATCH 61/89] fix: sets and lists can be shown

---
 esl/data/representation.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/esl/data/representation.hpp b/esl/data/representation.hpp
index d6b0173..21c63e9 100644
--- a/esl/data/representation.hpp
+++ b/esl/data/representation.hpp
@@ -28,6 +28,8 @@
 #ifndef ME_REPRESENTATION_HPP
 #define ME_REPRESENTATION_HPP
 
+#include <array>
+#include <iterator>
 #include <map>
 #include <ostream>
 #include <set>
@@ -108,7 +110,7 @@ namespace std {
         stream << '{';
         if(!set.empty()) {
             stream << *set.cbegin();
-            for(auto i = set.cbegin() + 1; i != set.end(); ++i) {
+            for(auto i = std::next(set.cbegin()); i != set.cend(); ++i) {
                 stream << ", " << *i;
             }
         }
@@ -163,7 +165,7 @@ namespace std {
         stream << '{';
         if(!set.empty()) {
             stream << *set.cbegin();
-            for(auto i = set.cbegin() + 1; i != set.end(); ++i) {
+            for(auto i = std::next(set.cbegin()); i != set.cend(); ++i) {
                 stream << ", " << *i;
             }
         }
@@ -260,7 +262,7 @@ namespace std {
         stream << '[';
         if(!list.empty()) {
             stream << *list.cbegin();
-            for(auto i = list.cbegin() + 1; i != list.end(); ++i) {
+            for(auto i = std::next(list.cbegin()); i != list.cend(); ++i) {
                 stream << " -> " << *i;
             }
         }
@@ -282,7 +284,7 @@ namespace std {
         stream << '[';
         if(!list.empty()) {
             stream << *list.cbegin();
-            for(auto i = list.cbegin() + 1; i != list.end(); ++i) {
+            for(auto i = std::next(list.cbegin()); i != list.cend(); ++i) {
                 stream << " <-> " << *i;
             }
         }
-- 
2.43.0


From 06cf18e2e68769fc6b7e81e41e8db1074aef551e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:40 +0000
Subject: [PATCH 62/89] fix: all elements of a queue are shown

---
 esl/data/representation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/data/representation.hpp b/esl/data/representation.hpp
index 21c63e9..b77299f 100644
--- a/esl/data/representation.hpp
+++ b/esl/data/representation.hpp
@@ -239,7 +239,7 @@ namespace std {
         if(!queue.empty()){
             stream << queue.front();
             queue.pop();
-            for(size_t c = 0; c < queue.size(); ++c){
+            while(!queue.empty()){
                 stream << ", " << queue.front();
                 queue.pop();
             }
-- 
2.43.0


From 0ced230ec91c75be2d174f41b6a0c942db31208c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 63/89] fix: line ends within delimiter separated values are
 quoted

---
 esl/data/format/delimiter_separated_values.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esl/data/format/delimiter_separated_values.hpp b/esl/data/format/delimiter_separated_values.hpp
index fce8edd..b1865fd 100644
--- a/esl/data/format/delimiter_separated_values.hpp
+++ b/esl/data/format/delimiter_separated_values.hpp
@@ -52,6 +52,9 @@ namespace esl::data::format::delimiter_separated_values {
             quote_ = true;
         } else if(text.find(escape) != std::string::npos) {
             quote_ = true;
+        } else if(text.find_first_of("\r\n") != std::string::npos) {
+            // line ends separate records, unless they are quoted
+            quote_ = true;
         }
 
         std::stringstream stream_;
-- 
2.43.0


From f80b322eb3982ef0afcf530501fe5f41609bc422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 64/89] fix: all delimiter separated values are escaped

---
 .../format/delimiter_separated_values.hpp     | 46 +++++++------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/esl/data/format/delimiter_separated_values.hpp b/esl/data/format/delimiter_separated_values.hpp
index b1865fd..4c6f945 100644
--- a/esl/data/format/delimiter_separated_values.hpp
+++ b/esl/data/format/delimiter_separated_values.hpp
@@ -41,7 +41,7 @@ namespace esl::data::format::delimiter_separated_values {
     /// \param quote
     /// \param escape
     /// \return
-    std::string render( const std::string &text
+    inline std::string render( const std::string &text
                       , const char delimiter = ','
                       , const char quote = '"'
                       , const char escape = '\\'
@@ -76,42 +76,30 @@ namespace esl::data::format::delimiter_separated_values {
     }
 
 
-    template<typename element_t_>
-    void extract_element(std::ostream &s, element_t_ v)
-    {
-        s << v;
-    }
-
     ///
-    /// \brief  Specialization for strings, which must be escaped.
+    /// \brief  Renders a value, of which the text must be escaped.
     ///
     /// \param s
     /// \param v
-    template<>
-    void extract_element(std::ostream &s, const std::string &v)
-    {
-        s << render(v);
-    }
-
-
-    template<typename... elements_t_>
-    static void extract_element( std::ostream &s
-                               , std::string &&first
-                               , elements_t_ &&... rest)
+    template<typename element_t_>
+    void render_element(std::ostream &s, const element_t_ &v)
     {
-        char delimiter_ = ',';
-        s << render(first) << delimiter_;
-        extract_element(s, std::forward<elements_t_>(rest)...);
+        std::stringstream text_;
+        text_.flags(s.flags());
+        text_.precision(s.precision());
+        text_ << v;
+        s << render(text_.str());
     }
 
     template<typename element_t_, typename... elements_t_>
-    static void extract_element(std::ostream &s
-                               , element_t_ &&first
-                               , elements_t_ &&... rest)
+    void render_element( std::ostream &s
+                       , const element_t_ &first
+                       , const elements_t_ &... rest)
     {
         char delimiter_ = ',';
-        s << first << delimiter_;
-        extract_element(s, std::forward<elements_t_>(rest)...);
+        render_element(s, first);
+        s << delimiter_;
+        render_element(s, rest...);
     }
 
     ///
@@ -123,8 +111,8 @@ namespace esl::data::format::delimiter_separated_values {
     void render_row(std::ostream &stream,
                     const std::tuple<element_t_...> &tuple)
     {
-        auto print_ = [&](auto... elements_) {
-            return extract_element(stream, elements_...);
+        auto print_ = [&](const auto &... elements_) {
+            return render_element(stream, elements_...);
         };
         std::apply(print_, tuple);
         stream << std::endl;
-- 
2.43.0


From 670fff4e3d5c15d253474339345e6c3561a69aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:13 +0000
Subject: [PATCH 65/89] fix: creating an output under a name that is taken is
 an error

---
 esl/data/producer.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/esl/data/producer.hpp b/esl/data/producer.hpp
index 857be89..c2f15a0 100644
--- a/esl/data/producer.hpp
+++ b/esl/data/producer.hpp
@@ -25,7 +25,9 @@
 #ifndef ESL_DATA_PRODUCER_HPP
 #define ESL_DATA_PRODUCER_HPP
 
+#include <cassert>
 #include <memory>
+#include <stdexcept>
 
 //#include <boost/serialization/unordered_map.hpp>
 
@@ -61,8 +63,11 @@ namespace esl::data {
         create_output(const std::string &name)
         {
             auto output_ = std::make_shared<output<variable_types_...>>(name);
-            outputs.insert(
-                {name, std::static_pointer_cast<output_base>(output_)});
+            const bool inserted_ = outputs.insert(
+                {name, std::static_pointer_cast<output_base>(output_)}).second;
+            if(!inserted_) {
+                throw std::invalid_argument("output \"" + name + "\" already exists");
+            }
             return output_;
         }
 
-- 
2.43.0


From 2622a3c49c8460737a71116599a63816130e87fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:50 +0000
Subject: [PATCH 66/89] fix: files are created in the working directory by
 default

---
 esl/data/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/data/file.cpp b/esl/data/file.cpp
index 061d5f7..0db2617 100644
--- a/esl/data/file.cpp
+++ b/esl/data/file.cpp
@@ -9,7 +9,7 @@ namespace esl::data {
 
     file::file(const std::filesystem::path &name, const std::filesystem::path &prefix)
     : stream(file_)
-    , file_((std::filesystem::create_directories(prefix), prefix / name ))
+    , file_((prefix.empty() || std::filesystem::create_directories(prefix), prefix / name ))
     {
         if(!file_.good()){
             std::stringstream message_;
-- 
2.43.0


From dca430850eb396a9a7207eefa3407c4d90378a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:44 +0000
Subject: [PATCH 67/89] fix: exchange rates can be saved as XML

---
 esl/economics/exchange_rate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/exchange_rate.hpp b/esl/economics/exchange_rate.hpp
index eb22532..674db25 100644
--- a/esl/economics/exchange_rate.hpp
+++ b/esl/economics/exchange_rate.hpp
@@ -158,7 +158,7 @@ namespace esl::economics {
         {
             (void)version;
             archive &boost::serialization::make_nvp(
-                "rate_std::uint64_t_",
+                "rate_uint64_t",
                 boost::serialization::base_object<rate<std::uint64_t>>(*this));
         }
     };
-- 
2.43.0


From 7a5b51b489306cabf1860735766e0500aef7f5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:12 +0000
Subject: [PATCH 68/89] fix: a message is saved with its header

---
 esl/interaction/message.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/interaction/message.hpp b/esl/interaction/message.hpp
index f7580cd..a32be53 100644
--- a/esl/interaction/message.hpp
+++ b/esl/interaction/message.hpp
@@ -73,7 +73,7 @@ namespace esl::interaction {
         {
             (void)version;
 
-            BOOST_SERIALIZATION_BASE_OBJECT_NVP(header);
+            archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(header);
 
             archive &boost::serialization::make_nvp(
                 "type_code_t⟨type_code_⟩",
-- 
2.43.0


From c100b8788ca8dc5d1ccc9fe07538a1dce5c22b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:03 +0000
Subject: [PATCH 69/89] fix: messages, properties and agents have names that
 are valid in XML archives

---
 esl/agent.hpp                                          | 7 +++----
 esl/economics/asset.hpp                                | 2 +-
 esl/economics/company.hpp                              | 2 +-
 esl/economics/markets/logon_message.hpp                | 2 +-
 esl/economics/markets/logout_message.hpp               | 2 +-
 esl/economics/markets/market_data_request_message.hpp  | 2 +-
 esl/economics/markets/order_message.hpp                | 2 +-
 esl/economics/markets/order_status_request_message.hpp | 2 +-
 esl/economics/markets/quote_message.hpp                | 2 +-
 esl/economics/owner.hpp                                | 3 +--
 esl/interaction/message.hpp                            | 4 ++--
 esl/law/property.hpp                                   | 2 +-
 esl/simulation/world.hpp                               | 2 +-
 13 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/esl/agent.hpp b/esl/agent.hpp
index 49988b4..c668292 100644
--- a/esl/agent.hpp
+++ b/esl/agent.hpp
@@ -99,10 +99,9 @@ namespace esl {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
-            archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(entity<agent>);
-            archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(
-                interaction::communicator);
-            archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(data::producer);
+            archive &boost::serialization::make_nvp("entity_agent", boost::serialization::base_object<entity<agent>>(*this));
+            archive &boost::serialization::make_nvp("communicator", boost::serialization::base_object<interaction::communicator>(*this));
+            archive &boost::serialization::make_nvp("producer", boost::serialization::base_object<data::producer>(*this));
         }
     };
 
diff --git a/esl/economics/asset.hpp b/esl/economics/asset.hpp
index 881acb9..b719b12 100644
--- a/esl/economics/asset.hpp
+++ b/esl/economics/asset.hpp
@@ -80,7 +80,7 @@ namespace esl::economics {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
-            archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(law::property);
+            archive &boost::serialization::make_nvp("property", boost::serialization::base_object<law::property>(*this));
         }
     };
 
diff --git a/esl/economics/company.hpp b/esl/economics/company.hpp
index 16085eb..3fdcd4e 100644
--- a/esl/economics/company.hpp
+++ b/esl/economics/company.hpp
@@ -164,7 +164,7 @@ namespace esl::economics {
             archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(organization);
             archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(shareholder);
             archive &boost::serialization::make_nvp(
-                "identifiable_as〈company〉",
+                "identifiable_as_company",
                 boost::serialization::base_object<identifiable_as<company>>(
                     *this));
 
diff --git a/esl/economics/markets/logon_message.hpp b/esl/economics/markets/logon_message.hpp
index 49dd1c7..af98f75 100644
--- a/esl/economics/markets/logon_message.hpp
+++ b/esl/economics/markets/logon_message.hpp
@@ -61,7 +61,7 @@ namespace esl::economics::markets {
         {
             (void)version;
  
-            archive &boost::serialization::make_nvp( "message⟨logon_message⟩"
+            archive &boost::serialization::make_nvp( "message_logon_message"
                                                    , boost::serialization::base_object<
                                                             interaction::message<logon_message,interaction::library_message_code<0x00C00>()>
                                                                                       >(*this));
diff --git a/esl/economics/markets/logout_message.hpp b/esl/economics/markets/logout_message.hpp
index 259956d..b42a493 100644
--- a/esl/economics/markets/logout_message.hpp
+++ b/esl/economics/markets/logout_message.hpp
@@ -56,7 +56,7 @@ namespace esl::economics::markets {
         {
             (void)version;
  
-            archive &boost::serialization::make_nvp( "message⟨logout_message⟩"
+            archive &boost::serialization::make_nvp( "message_logout_message"
                                                    , boost::serialization::base_object<
                                                             interaction::message<logout_message,interaction::library_message_code<0x00C01>()>
                                                                                       >(*this));
diff --git a/esl/economics/markets/market_data_request_message.hpp b/esl/economics/markets/market_data_request_message.hpp
index 0082d96..027a05f 100644
--- a/esl/economics/markets/market_data_request_message.hpp
+++ b/esl/economics/markets/market_data_request_message.hpp
@@ -90,7 +90,7 @@ namespace esl::economics::markets {
         {
             (void)version;
  
-            archive &boost::serialization::make_nvp( "message⟨market_data_request_message⟩"
+            archive &boost::serialization::make_nvp( "message_market_data_request_message"
                                                    , boost::serialization::base_object<
                                                             interaction::message<market_data_request_message,interaction::library_message_code<0x00C02>()>
                                                                                       >(*this));
diff --git a/esl/economics/markets/order_message.hpp b/esl/economics/markets/order_message.hpp
index 9760e82..2d21eb4 100644
--- a/esl/economics/markets/order_message.hpp
+++ b/esl/economics/markets/order_message.hpp
@@ -70,7 +70,7 @@ struct order_message
     {
         (void)version;
         archive &make_nvp(
-            "interaction〈message_type_,type_code_〉",
+            "interaction_message_type_type_code",
             boost::serialization::base_object<
             interaction::message<message_type_, type_code_>>(
                 *this));
diff --git a/esl/economics/markets/order_status_request_message.hpp b/esl/economics/markets/order_status_request_message.hpp
index 561babb..d536ad5 100644
--- a/esl/economics/markets/order_status_request_message.hpp
+++ b/esl/economics/markets/order_status_request_message.hpp
@@ -54,7 +54,7 @@ namespace esl::economics::markets {
         {
             (void)version;
  
-            archive &boost::serialization::make_nvp( "message⟨order_status_request_message⟩"
+            archive &boost::serialization::make_nvp( "message_order_status_request_message"
                                                    , boost::serialization::base_object<
                                                             interaction::message<order_status_request_message,interaction::library_message_code<0x00C03>()>
                                                                                       >(*this));
diff --git a/esl/economics/markets/quote_message.hpp b/esl/economics/markets/quote_message.hpp
index 414a14e..a18b4fd 100644
--- a/esl/economics/markets/quote_message.hpp
+++ b/esl/economics/markets/quote_message.hpp
@@ -76,7 +76,7 @@ namespace esl::economics::markets {
         {
             (void)version;
             archive &make_nvp(
-                "interaction〈message_type_,type_code_〉",
+                "interaction_message_type_type_code",
                 boost::serialization::base_object<
                     interaction::message<message_type_, type_code_>>(*this));
             archive &BOOST_SERIALIZATION_NVP(proposed);
diff --git a/esl/economics/owner.hpp b/esl/economics/owner.hpp
index 64b68e9..69fb31e 100644
--- a/esl/economics/owner.hpp
+++ b/esl/economics/owner.hpp
@@ -109,8 +109,7 @@ namespace esl::law {
         {
             (void)version;
             archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(agent);
-            archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(
-                identifiable_as<owner<property>>);
+            archive &boost::serialization::make_nvp("identifiable_as_owner", boost::serialization::base_object<identifiable_as<owner<property>>>(*this));
             archive &BOOST_SERIALIZATION_NVP(inventory);
         }
     };
diff --git a/esl/interaction/message.hpp b/esl/interaction/message.hpp
index a32be53..c2e3c67 100644
--- a/esl/interaction/message.hpp
+++ b/esl/interaction/message.hpp
@@ -76,12 +76,12 @@ namespace esl::interaction {
             archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(header);
 
             archive &boost::serialization::make_nvp(
-                "type_code_t⟨type_code_⟩",
+                "type_code_t_type_code",
                 boost::serialization::base_object<type_code<type_code_>>(
                     *this));
 
             archive &boost::serialization::make_nvp(
-                "market_type⟨message_type_⟩",
+                "market_type_message_type",
                 boost::serialization::base_object<type_marker<message_type_>>(
                     *this));
         }
diff --git a/esl/law/property.hpp b/esl/law/property.hpp
index 889f208..6565fda 100644
--- a/esl/law/property.hpp
+++ b/esl/law/property.hpp
@@ -62,7 +62,7 @@ namespace esl::law {
         {
             (void)version;
             archive &boost::serialization::make_nvp(
-                "entity⟨property⟩",
+                "entity_property",
                 boost::serialization::base_object<entity<property>>(*this));
         }
     };
diff --git a/esl/simulation/world.hpp b/esl/simulation/world.hpp
index a1d953e..b63c82f 100644
--- a/esl/simulation/world.hpp
+++ b/esl/simulation/world.hpp
@@ -51,7 +51,7 @@ namespace esl::simulation {
             (void)version;
 
             archive &boost::serialization::make_nvp(
-                "entity⟨world⟩",
+                "entity_world",
                 boost::serialization::base_object<entity<world>>(*this));
         }
     };
-- 
2.43.0


From 4a15b2c027d21e0e113f3ca8a432b3c52825ddb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:00 +0000
Subject: [PATCH 70/89] fix: outputs can be saved, and stay buffered when
 restored

---
 esl/data/output.hpp        | 6 +-----
 esl/data/output_base.hpp   | 1 +
 esl/data/serialization.hpp | 2 ++
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/esl/data/output.hpp b/esl/data/output.hpp
index 6d92c45..73294c1 100644
--- a/esl/data/output.hpp
+++ b/esl/data/output.hpp
@@ -32,6 +32,7 @@
 #include <boost/serialization/vector.hpp>
 
 #include <esl/data/output_base.hpp>
+#include <esl/data/serialization.hpp>
 #include <esl/simulation/time.hpp>
 
 #include <esl/computation/allocator.hpp>
@@ -91,11 +92,6 @@ namespace esl::data {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
-            //archive.template register_type<simulation::time_point>();
-            archive.template register_type<variable_types_...>();
-            archive.template register_type<output<variable_types_...>>();
-            archive.template register_type<std::tuple<simulation::time_point, variable_types_...>>();
-
             archive &boost::serialization::make_nvp(
                 "output_base",
                 boost::serialization::base_object<output_base>(*this));
diff --git a/esl/data/output_base.hpp b/esl/data/output_base.hpp
index a85877f..1a07095 100644
--- a/esl/data/output_base.hpp
+++ b/esl/data/output_base.hpp
@@ -110,6 +110,7 @@ namespace esl::data {
         {
             (void)version;
             archive & BOOST_SERIALIZATION_NVP(name);
+            archive & BOOST_SERIALIZATION_NVP(buffered);
         }
     };
 }
diff --git a/esl/data/serialization.hpp b/esl/data/serialization.hpp
index 22aa70b..62b2762 100644
--- a/esl/data/serialization.hpp
+++ b/esl/data/serialization.hpp
@@ -26,6 +26,8 @@
 #define ME_SERIALIZATION_HPP
 
 
+#include <cstdint>
+#include <string>
 #include <tuple>
 
 #include <boost/serialization/nvp.hpp>
-- 
2.43.0


From 254f36120e3430ff8e32598add6f61b73013cfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:00 +0000
Subject: [PATCH 71/89] fix: order and quote messages can be saved

---
 esl/economics/markets/order_message.hpp | 2 +-
 esl/economics/markets/quote_message.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/economics/markets/order_message.hpp b/esl/economics/markets/order_message.hpp
index 2d21eb4..a0afc68 100644
--- a/esl/economics/markets/order_message.hpp
+++ b/esl/economics/markets/order_message.hpp
@@ -69,7 +69,7 @@ struct order_message
     void serialize(archive_t &archive, const unsigned int version)
     {
         (void)version;
-        archive &make_nvp(
+        archive &boost::serialization::make_nvp(
             "interaction_message_type_type_code",
             boost::serialization::base_object<
             interaction::message<message_type_, type_code_>>(
diff --git a/esl/economics/markets/quote_message.hpp b/esl/economics/markets/quote_message.hpp
index a18b4fd..a6122b8 100644
--- a/esl/economics/markets/quote_message.hpp
+++ b/esl/economics/markets/quote_message.hpp
@@ -75,7 +75,7 @@ namespace esl::economics::markets {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
-            archive &make_nvp(
+            archive &boost::serialization::make_nvp(
                 "interaction_message_type_type_code",
                 boost::serialization::base_object<
                     interaction::message<message_type_, type_code_>>(*this));
-- 
2.43.0


From 949f3c6a1368e1fb8c3215b653962dd9a4b5b5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:00 +0000
Subject: [PATCH 72/89] fix: dividend messages are saved with their header

---
 esl/economics/finance/dividend.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/economics/finance/dividend.hpp b/esl/economics/finance/dividend.hpp
index e1df7e0..f6145a7 100644
--- a/esl/economics/finance/dividend.hpp
+++ b/esl/economics/finance/dividend.hpp
@@ -123,7 +123,7 @@ namespace esl::economics::finance {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
-            boost::serialization::make_nvp(
+            archive &boost::serialization::make_nvp(
                 "message",
                 boost::serialization::base_object<
                     message<dividend_announcement_message,
@@ -172,7 +172,7 @@ namespace esl::economics::finance {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
-            boost::serialization::make_nvp(
+            archive &boost::serialization::make_nvp(
                 "message",
                 boost::serialization::base_object<
                     message<dividend_record,
-- 
2.43.0


From 3d14f159660db7bb030a19bbf649548274201485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:00 +0000
Subject: [PATCH 73/89] fix: orders of a market with an impact function are
 saved with their volumes

---
 esl/economics/markets/impact_function/order.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esl/economics/markets/impact_function/order.hpp b/esl/economics/markets/impact_function/order.hpp
index 7a1ef53..7100d15 100644
--- a/esl/economics/markets/impact_function/order.hpp
+++ b/esl/economics/markets/impact_function/order.hpp
@@ -63,6 +63,8 @@ namespace esl::economics::markets::impact_function {
             typedef markets::order_message<order_message, interaction::library_message_code<0x00B2U>()>
                 order_message_type;
             archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(order_message_type);
+            archive &BOOST_SERIALIZATION_NVP(side);
+            archive &BOOST_SERIALIZATION_NVP(volumes);
         }
     };
 }
-- 
2.43.0


From 144bb6c83502716b30a9821f0ed38496fdf201cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:00 +0000
Subject: [PATCH 74/89] fix: parameters with a range can be saved

---
 esl/simulation/parameter/parameter.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/esl/simulation/parameter/parameter.hpp b/esl/simulation/parameter/parameter.hpp
index 651779d..3be71c5 100644
--- a/esl/simulation/parameter/parameter.hpp
+++ b/esl/simulation/parameter/parameter.hpp
@@ -111,6 +111,15 @@ namespace esl::simulation::parameter {
         {
 
         }
+
+        template<class archive_t>
+        void serialize(archive_t &archive, const unsigned int version)
+        {
+            (void)version;
+            archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(parameter_base);
+            archive &boost::serialization::make_nvp("lower", this->lower);
+            archive &boost::serialization::make_nvp("upper", this->upper);
+        }
     };
 
 }
-- 
2.43.0


From da030cdec0a7d257ea00d78abfc341dd2ff87a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:04 +0000
Subject: [PATCH 75/89] fix: logon messages and requests for market data can be
 saved

---
 esl/economics/markets/logon_message.hpp             | 13 ++++++++++++-
 .../markets/market_data_request_message.hpp         |  1 +
 esl/economics/markets/ticker.hpp                    |  8 ++++++++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/logon_message.hpp b/esl/economics/markets/logon_message.hpp
index af98f75..76e182f 100644
--- a/esl/economics/markets/logon_message.hpp
+++ b/esl/economics/markets/logon_message.hpp
@@ -25,9 +25,15 @@
 #ifndef ME_LOGON_MESSAGE_HPP
 #define ME_LOGON_MESSAGE_HPP
 
+#include <esl/economics/markets/ticker.hpp>
 #include <esl/interaction/message.hpp>
 
+#include <utility>
+#include <vector>
+
 #include <boost/container/flat_map.hpp>
+#include <boost/serialization/utility.hpp>
+#include <boost/serialization/vector.hpp>
 
 namespace esl::economics::markets {
 
@@ -66,7 +72,12 @@ namespace esl::economics::markets {
                                                             interaction::message<logon_message,interaction::library_message_code<0x00C00>()>
                                                                                       >(*this));
 
-            archive &BOOST_SERIALIZATION_NVP(supply);
+            std::vector<std::pair<ticker, std::uint64_t>> supply_(supply.begin(), supply.end());
+            archive &boost::serialization::make_nvp("supply", supply_);
+            if constexpr(archive_t::is_loading::value) {
+                supply.clear();
+                supply.insert(supply_.begin(), supply_.end());
+            }
         }
     };
 }//namespace esl::economics::markets
diff --git a/esl/economics/markets/market_data_request_message.hpp b/esl/economics/markets/market_data_request_message.hpp
index 027a05f..49c8c5b 100644
--- a/esl/economics/markets/market_data_request_message.hpp
+++ b/esl/economics/markets/market_data_request_message.hpp
@@ -25,6 +25,7 @@
 #ifndef ME_MARKET_DATA_REQUEST_MESSAGE_HPP
 #define ME_MARKET_DATA_REQUEST_MESSAGE_HPP
 
+#include <esl/economics/markets/ticker.hpp>
 #include <esl/interaction/message.hpp>
 
 
diff --git a/esl/economics/markets/ticker.hpp b/esl/economics/markets/ticker.hpp
index 48310b0..7fdaa18 100644
--- a/esl/economics/markets/ticker.hpp
+++ b/esl/economics/markets/ticker.hpp
@@ -93,6 +93,14 @@ namespace esl::economics::markets {
             return (*this > other) || (*this == other);
         }
 
+        template<class archive_t>
+        void serialize(archive_t &archive, const unsigned int version)
+        {
+            (void)version;
+            archive &BOOST_SERIALIZATION_NVP(base);
+            archive &BOOST_SERIALIZATION_NVP(quote);
+        }
+
  protected:
         friend std::ostream &operator<<(std::ostream &, const ticker &);
     };
-- 
2.43.0


From 24f0658436a0ed39f9ffac5ea0e61f482291b14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:32 +0000
Subject: [PATCH 76/89] fix: random seeds differ for times and samples that
 differ in their upper halves only

---
 esl/simulation/model.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index c197904..3241266 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -128,10 +128,14 @@ namespace esl::simulation {
                 // auto agent_start_ = high_resolution_clock::now();
                 // auto agent_act_ = high_resolution_clock::now();
                 // The seed is deterministic in the following variables:
+                // std::seed_seq uses the lower 32 bits of each of its elements,
+                // hence the upper halves are separate elements
+                const auto hash_ = std::uint64_t(std::hash<identity<agent>>()(a->identifier));
                 std::seed_seq seed_ {
-                    std::uint64_t(std::hash<identity<agent>>()(a->identifier)),
-                    std::uint64_t(step.lower), std::uint64_t(round_),
-                    sample};
+                    hash_, hash_ >> 32,
+                    std::uint64_t(step.lower), std::uint64_t(step.lower) >> 32,
+                    std::uint64_t(round_),
+                    sample, sample >> 32};
 
                 // try {
 
-- 
2.43.0


From 9a8fe645bb149750d2775e8409b7d7bf0b2b1280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:40 +0000
Subject: [PATCH 77/89] fix: agents can be created and removed by agents acting
 on other threads

---
 esl/simulation/agent_collection.cpp | 3 +++
 esl/simulation/agent_collection.hpp | 7 +++++++
 esl/simulation/model.cpp            | 1 +
 3 files changed, 11 insertions(+)

diff --git a/esl/simulation/agent_collection.cpp b/esl/simulation/agent_collection.cpp
index 2eed751..4b13fdb 100644
--- a/esl/simulation/agent_collection.cpp
+++ b/esl/simulation/agent_collection.cpp
@@ -39,6 +39,7 @@ namespace esl::simulation {
 
     void agent_collection::activate(std::shared_ptr<agent> a)
     {
+        std::unique_lock lock_(*mutex);
         global_agents_.insert(a->identifier);
         local_agents_.insert({a->identifier, a});
         environment_.get().activate_agent(a->identifier);
@@ -46,6 +47,7 @@ namespace esl::simulation {
 
     void agent_collection::deactivate(std::shared_ptr<agent> a)
     {
+        std::unique_lock lock_(*mutex);
         global_agents_.erase(a->identifier);
         local_agents_.erase(a->identifier);
         environment_.get().deactivate_agent(a->identifier);
@@ -54,6 +56,7 @@ namespace esl::simulation {
     std::shared_ptr<agent>
         agent_collection::operator[](const identity<agent> &a)
     {
+        std::unique_lock lock_(*mutex);
         auto iterator_ = local_agents_.find(a);
         if(local_agents_.end() == iterator_) {
             return nullptr;
diff --git a/esl/simulation/agent_collection.hpp b/esl/simulation/agent_collection.hpp
index 93cd027..770b125 100644
--- a/esl/simulation/agent_collection.hpp
+++ b/esl/simulation/agent_collection.hpp
@@ -26,6 +26,7 @@
 #define ESL_AGENT_COLLECTION_HPP
 
 #include <memory>
+#include <mutex>
 #include <unordered_map>
 #include <unordered_set>
 
@@ -63,6 +64,12 @@ namespace esl::simulation {
 
         boost::container::flat_map<identity<agent>, std::shared_ptr<agent>> local_agents_;
 
+        ///
+        /// \brief  Guards the collection while agents act, as agents on
+        ///         different threads can create and remove agents.
+        ///
+        std::shared_ptr<std::mutex> mutex = std::make_shared<std::mutex>();
+
         explicit agent_collection(std::reference_wrapper<computation::environment> environment_);
 
         template<typename agent_derived_t_, typename entity_type_>
diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index 3241266..f49ee2e 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -71,6 +71,7 @@ namespace esl::simulation {
     {
         time_point result_ = end;
         std::vector<identity<agent>> blockers_;
+        std::unique_lock lock_(*agents.mutex);
         //for(auto &[i, a] : agents.local_agents_) {
         //    auto iterator_ = wake_up_times.find(i);
         for(const auto &[i, t] : wake_up_times) {
-- 
2.43.0


From ecb12079a6d7e3be44ae493ba361c6f5a98d2ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:44 +0000
Subject: [PATCH 78/89] fix: netted items of a Walrasian clearing are not
 received in full as well

---
 esl/economics/markets/walras/price_setter.cpp | 57 +++++++++----------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/esl/economics/markets/walras/price_setter.cpp b/esl/economics/markets/walras/price_setter.cpp
index 2a49d43..604b404 100644
--- a/esl/economics/markets/walras/price_setter.cpp
+++ b/esl/economics/markets/walras/price_setter.cpp
@@ -487,38 +487,35 @@ namespace esl::economics::markets::walras {
         }
 
         // apply netting
-        for(auto &[p, i_r] : receive_) {
-            auto offset_ = send_.find(p);
-            if(send_.end() == offset_) {
-                continue;
-            }
-
-            for(auto &[k, v] : i_r.items) {
-                if(0 == v.amount){
-                    //i_r.items.erase(k);
-                    continue;
-                }
-
-                auto property_ = offset_->second.items.find(k);
-                if(offset_->second.items.end() == property_) {
-                    continue;
-                }
-                // receiving more than sending
-                if(v > property_->second) {
-                    auto diff_ = v - property_->second;
-                    v          = diff_;
-                    offset_->second.items.erase(property_);
-                } else if(v < property_->second) {  // sending more than recv
-                    auto diff_        = property_->second - v;
-                    property_->second = diff_;
-                    //i_r.items.erase(k);
-                } else {  // sending and rececing same amount
-                    //i_r.items.erase(k);
-                    offset_->second.items.erase(property_);
+        for(auto r = receive_.begin(); r != receive_.end();) {
+            auto &items_ = r->second.items;
+            auto offset_ = send_.find(r->first);
+            if(send_.end() != offset_) {
+                for(auto i = items_.begin(); i != items_.end();) {
+                    auto &[k, v] = *i;
+                    auto property_ = offset_->second.items.find(k);
+                    if(offset_->second.items.end() == property_) {
+                        ++i;
+                        continue;
+                    }
+                    // receiving more than sending
+                    if(v > property_->second) {
+                        v = v - property_->second;
+                        offset_->second.items.erase(property_);
+                        ++i;
+                    } else if(v < property_->second) {  // sending more than recv
+                        property_->second = property_->second - v;
+                        i = items_.erase(i);
+                    } else {  // sending and receiving same amount
+                        offset_->second.items.erase(property_);
+                        i = items_.erase(i);
+                    }
                 }
             }
-            if(i_r.items.empty()){
-                receive_.erase(p);
+            if(items_.empty()) {
+                r = receive_.erase(r);
+            } else {
+                ++r;
             }
         }
 
-- 
2.43.0


From ac76b4f20eba5606d2997a9f6303c81f072d1c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:45 +0000
Subject: [PATCH 79/89] fix: a participant of a Walrasian market receives all
 properties it purchases

---
 esl/economics/markets/walras/price_setter.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/esl/economics/markets/walras/price_setter.cpp b/esl/economics/markets/walras/price_setter.cpp
index 604b404..0d20cb9 100644
--- a/esl/economics/markets/walras/price_setter.cpp
+++ b/esl/economics/markets/walras/price_setter.cpp
@@ -445,9 +445,8 @@ namespace esl::economics::markets::walras {
 
                     if(uint64_t(v) > 0){
                         //LOG(trace) << p << " purchased additional " << v << std::endl;
-                        accounting::inventory_filter<law::property> purchased_;
-                        purchased_.insert(property_, quantity(uint64_t(v)));
-                        send_.emplace(p, purchased_);
+                        auto purchased_ = send_.emplace(p, accounting::inventory_filter<law::property>()).first;
+                        purchased_->second.insert(property_, quantity(uint64_t(v)));
 
                         // they should send cash for the purchase
                         auto r = receive_.emplace(p, accounting::inventory_filter<law::property>()).first;
-- 
2.43.0


From 8b4f10ead89e0701480bccc85fbf28cc7113e8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:02 +0000
Subject: [PATCH 80/89] fix: the price of a single property is iterated until
 it clears the Walrasian market

---
 esl/economics/markets/walras/tatonnement.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/esl/economics/markets/walras/tatonnement.cpp b/esl/economics/markets/walras/tatonnement.cpp
index 6a785d1..49daef4 100644
--- a/esl/economics/markets/walras/tatonnement.cpp
+++ b/esl/economics/markets/walras/tatonnement.cpp
@@ -416,6 +416,7 @@ namespace esl::economics::markets::tatonnement {
                 // algorithms that do well on univariate root finding
                 if(1 == quotes.size()){
                     constexpr double absolute_tolerance = 1e-6;
+                    constexpr double delta_relative_tolerance = 1e-10;
 
                     // capture previous error handler to restore later
                     auto old_handler_ = gsl_set_error_handler (&handler);
@@ -444,9 +445,10 @@ namespace esl::economics::markets::tatonnement {
                     double best_error_ = uniroot_function_value(best_quote_, this);//std::numeric_limits<double>::max();
                     do  {
                         ++iteration_;
+                        // store initial position to compute delta
+                        const double x0 = xt;
                         // perform one solver step
                         status_ = gsl_root_fdfsolver_iterate(s);
-                        // store initial position to compute delta
                         xt = gsl_root_fdfsolver_root(s);
                         auto errors_ = uniroot_function_value(xt, this);
                         if(abs(errors_) < abs(best_error_)){
@@ -457,7 +459,10 @@ namespace esl::economics::markets::tatonnement {
                             status_ = GSL_SUCCESS;
                             break;
                         }
-                        //status_ = gsl_root_test_delta (xt, x0, delta_absolute_tolerance, delta_relative_tolerance);
+                        // a step that succeeded is not a solution: continue until the quote settles
+                        if(GSL_SUCCESS == status_) {
+                            status_ = gsl_root_test_delta(xt, x0, 0., delta_relative_tolerance);
+                        }
                     } while (GSL_CONTINUE == status_ && iteration_ < max_iterations);
 
                     if (GSL_SUCCESS == status_) {
-- 
2.43.0


From aebb295c1ee641a7116fa7784e2caa0c083a667f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:19 +0000
Subject: [PATCH 81/89] fix: the circuit breaker limits the prices that all
 solution methods find

---
 esl/economics/markets/walras/tatonnement.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/walras/tatonnement.cpp b/esl/economics/markets/walras/tatonnement.cpp
index 49daef4..def58c5 100644
--- a/esl/economics/markets/walras/tatonnement.cpp
+++ b/esl/economics/markets/walras/tatonnement.cpp
@@ -622,6 +622,9 @@ namespace esl::economics::markets::tatonnement {
                     std::map<esl::identity<esl::law::property>, double> result_;
                     for(size_t i = 0; i < active_.size(); ++i) {
                         auto scalar_ = gsl_vector_get (minimizer->x, i);
+                        // apply circuit breaker
+                        scalar_ = std::min(scalar_, circuit_breaker.second);
+                        scalar_ = std::max(scalar_, circuit_breaker.first);
                         result_.insert({mapping_index_[i], scalar_});
                     }
                     gsl_multimin_fdfminimizer_free(minimizer);
@@ -695,6 +698,9 @@ namespace esl::economics::markets::tatonnement {
                     std::map<esl::identity<esl::law::property>, double> result_;
                     for(size_t i = 0; i < active_.size(); ++i) {
                         auto scalar_ = gsl_vector_get (minimizer->x, i);
+                        // apply circuit breaker
+                        scalar_ = std::min(scalar_, circuit_breaker.second);
+                        scalar_ = std::max(scalar_, circuit_breaker.first);
                         result_.insert({mapping_index_[i], scalar_});
                     }
                     gsl_multimin_fminimizer_free(minimizer);
@@ -790,7 +796,10 @@ namespace esl::economics::markets::tatonnement {
                 std::map<esl::identity<esl::law::property>, double> result_;
                 for(size_t i = 0; i < active_.size(); ++i) {
                     //LOG(trace) << "outcome: " << multipliers_[i] << std::endl;
-                    result_.emplace(mapping_index_[i], multipliers_[i]);
+                    // apply circuit breaker
+                    auto scalar_ = std::min(multipliers_[i], circuit_breaker.second);
+                    scalar_ = std::max(scalar_, circuit_breaker.first);
+                    result_.emplace(mapping_index_[i], scalar_);
                 }
 
                 gsl_multiroot_fsolver_free (solver_);
-- 
2.43.0


From 4a34ad84854748dda3cae8b0e0bef22ed746ad6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:39 +0000
Subject: [PATCH 82/89] fix: the volume is zero when no participant of a
 Walrasian market expresses interest

---
 esl/economics/markets/walras/price_setter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/walras/price_setter.cpp b/esl/economics/markets/walras/price_setter.cpp
index 0d20cb9..66cc558 100644
--- a/esl/economics/markets/walras/price_setter.cpp
+++ b/esl/economics/markets/walras/price_setter.cpp
@@ -392,7 +392,8 @@ namespace esl::economics::markets::walras {
 
         ////////////////////////////////////////////////////////////////////////
         auto transfers_ = compute_transfers(traded_properties, volumes_, orders_);
-        output_volumes_->put(step.lower, { std::uint64_t(volumes_.begin()->second )} );
+        // if no agents expressed interest, there is no volume
+        output_volumes_->put(step.lower, { volumes_.empty() ? std::uint64_t(0) : std::uint64_t(volumes_.begin()->second )} );
 
 
         //  send_: we, the market maker, send items to participant
-- 
2.43.0


From 2d55da209b33917dca0119814091f944940152fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:22 +0000
Subject: [PATCH 83/89] fix: the line end of a log channel does not lock twice

---
 esl/data/channel.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/esl/data/channel.hpp b/esl/data/channel.hpp
index da4da6d..5a53805 100644
--- a/esl/data/channel.hpp
+++ b/esl/data/channel.hpp
@@ -121,7 +121,7 @@ namespace esl::data {
         /// \return
         channel &operator<<(manipulator function)
         {
-            std::lock_guard<std::mutex> lock_(mutex_);
+            // the manipulator locks when it writes
             return function(*this);
         }
 
@@ -131,11 +131,8 @@ namespace esl::data {
         /// \return
         static channel &endl(channel &stream)
         {
-            std::lock_guard<std::mutex> lock_(mutex_);
+            // locks, and writes to all streams of the channel
             stream << std::endl;
-#if !(defined(ESL_RELEASE) && ESL_RELEASE > 0)
-            std::cout << std::endl;
-#endif
             return stream;
         }
 
-- 
2.43.0


From 3e32f2625007e50801f6888544fd02f1c90947fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:09 +0000
Subject: [PATCH 84/89] fix: an impact function market weighs orders by their
 volume and not by their side

---
 esl/economics/markets/impact_function/market.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esl/economics/markets/impact_function/market.cpp b/esl/economics/markets/impact_function/market.cpp
index b5e9559..93c2ec8 100644
--- a/esl/economics/markets/impact_function/market.cpp
+++ b/esl/economics/markets/impact_function/market.cpp
@@ -163,10 +163,10 @@ namespace esl::economics::markets::impact_function {
                 volumes_.emplace(p, 0.);
 
 
-                if(order_message::buy == i.first ){
-                    volumes_[p] += double(i.second);
-                }else if(order_message::sell == i.first ){
-                    volumes_[p] -= double(i.second);
+                if(order_message::buy == i.second ){
+                    volumes_[p] += double(i.first);
+                }else if(order_message::sell == i.second ){
+                    volumes_[p] -= double(i.first);
                 }
             }
         }
-- 
2.43.0


From b1d9942178b61e7fd0c65fe2fae7b7d8205df271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:03 +0000
Subject: [PATCH 85/89] fix: an impact function market moves its prices by the
 impact it finds

---
 esl/economics/markets/impact_function/market.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/impact_function/market.cpp b/esl/economics/markets/impact_function/market.cpp
index 93c2ec8..a9888ac 100644
--- a/esl/economics/markets/impact_function/market.cpp
+++ b/esl/economics/markets/impact_function/market.cpp
@@ -22,6 +22,9 @@
 ///             You may obtain instructions to fulfill the attribution
 ///             requirements in CITATION.cff
 ///
+#include <algorithm>
+#include <cmath>
+
 #include <esl/economics/markets/impact_function/market.hpp>
 
 #include <esl/economics/markets/impact_function/order.hpp>
@@ -110,8 +113,12 @@ namespace esl::economics::markets::impact_function {
 
                 std::vector<price> prices_;
                 for(auto &[k, v]: traded_properties){
-                    (void)v;
                     // TODO: generalise to all types of quotes
+                    auto scalar_ = scalars_.find(k->identifier);
+                    if(scalars_.end() != scalar_) {
+                        auto &price_ = std::get<price>(v.type);
+                        price_.value = std::max<std::int64_t>(1, std::llround(double(price_.value) * scalar_->second));
+                    }
                     prices_.emplace_back(std::get<price>(v.type));
                     quotes_.emplace_back(quote(v));
                 }
-- 
2.43.0


From 1e975d3f21f4b9b7c5fdbfed11bc6983b225fd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:28 +0000
Subject: [PATCH 86/89] fix: writing a price restores the precision of the
 stream

---
 esl/economics/price.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esl/economics/price.hpp b/esl/economics/price.hpp
index ba43646..298dfe2 100644
--- a/esl/economics/price.hpp
+++ b/esl/economics/price.hpp
@@ -297,10 +297,12 @@ namespace esl::economics {
             //o.imbue(std::locale(o.getloc(), thousands.release()));
 
             int precision_ = static_cast<int>(ceil(log10(double(valuation.denominator))));
+            const auto stream_precision_ = o.precision();
             o << valuation << '(' << std::fixed
               << std::setprecision(precision_) << double(*this) << ')';
             //o.imbue(l);
             o.flags(flags_);
+            o.precision(stream_precision_);
             return o;
         }
 
-- 
2.43.0


From 3e0423fd829ebb0cfd2c3656bec03bd91a2c04df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:15 +0000
Subject: [PATCH 87/89] fix: writing an identity restores the fill of the
 stream

---
 esl/simulation/identity.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esl/simulation/identity.hpp b/esl/simulation/identity.hpp
index 7e50ad5..cfb8019 100644
--- a/esl/simulation/identity.hpp
+++ b/esl/simulation/identity.hpp
@@ -298,6 +298,7 @@ namespace esl {
 
             auto iterator_ = i.digits.begin();
             auto width_    = std::setw(stream.width());
+            auto fill_     = stream.fill();
             stream << std::setw(0) << '"';
             stream << std::setfill('0') << width_ << *iterator_;
             ++iterator_;
@@ -306,6 +307,7 @@ namespace esl {
                 stream << std::setfill('0') << width_ << *iterator_;
             }
             stream << std::setw(0) << '"'; // stream width resets
+            stream.fill(fill_);
             return stream;
         }
 
-- 
2.43.0


From 2e9a7a7806c089dd036eef52122b6f2f220ac336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:01 +0000
Subject: [PATCH 88/89] fix: a bondholder keeps the latest price it is quoted
 and not the first

---
 esl/economics/finance/bondholder.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/esl/economics/finance/bondholder.cpp b/esl/economics/finance/bondholder.cpp
index c33f311..cd675dc 100644
--- a/esl/economics/finance/bondholder.cpp
+++ b/esl/economics/finance/bondholder.cpp
@@ -45,8 +45,7 @@ namespace esl::economics::finance {
                 (void) seed;
                 for(auto &[k, v] : m->proposed){
                     assert(std::holds_alternative<price>(v.type));
-                    auto p = std::make_pair(k, std::get<price>(v.type));
-                    this->bond_prices.insert(std::move(p));
+                    this->bond_prices.insert_or_assign(k, std::get<price>(v.type));
                 }
                 return step.upper;
             };
-- 
2.43.0


From 062f83640a47e02afd61f06f37639599d34e3b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:01 +0000
Subject: [PATCH 89/89] fix: a shareholder submits one record for each dividend

---
 esl/economics/finance/shareholder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/esl/economics/finance/shareholder.cpp b/esl/economics/finance/shareholder.cpp
index 9934225..89f7dca 100644
--- a/esl/economics/finance/shareholder.cpp
+++ b/esl/economics/finance/shareholder.cpp
@@ -86,15 +86,18 @@ namespace esl::economics::finance {
     simulation::time_point
     shareholder::submit_dividend_record(simulation::time_interval interval)
     {
-        for(auto i = ex_dividend_dates.begin(); i != ex_dividend_dates.end();
-            ++i) {
+        for(auto i = ex_dividend_dates.begin(); i != ex_dividend_dates.end();) {
             const auto &[s, c] = *i;
             if(interval.lower <= s && interval.upper >= s) {  // reply ASAP
                 if(shares.find(c) != shares.end()) {
                     auto record_ = this->create_message<dividend_record>(
                         c, 0, this->identifier, c, shares[c]);
+                    // the company is billed once for each dividend
+                    i = ex_dividend_dates.erase(i);
+                    continue;
                 }
             }
+            ++i;
         }
         return interval.upper;
     }
-- 
2.43.0

